// C10: every axis-aligned edge to mesh gets exactly one policy, of the right kind, at its place.
#include "mesh.hpp"
#include <tuple>
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
using namespace domain;

static Normal up(Plane, bool h, bool max) { return h ? (max ? Normal::YMAX : Normal::YMIN) : (max ? Normal::XMAX : Normal::XMIN); }
// What the edges of a plane ask for: coordinate and side (metal above: MIN) of every H or V edge that is to be meshed.
struct Want { bool h; int64_t c; bool max; bool mesh; };
static void compare(Board& b, Plane plane, std::vector<Want> const& es) {
	for(bool h : { true, false }) {
		Axis axis = transpose(plane, h ? V : H);
		auto const& ps = b.get_meshline_policies(axis);
		size_t expected = 0;
		for(size_t i = 0; i < es.size(); ++i) {
			if(es[i].h != h) continue;
			bool first = true, mn = false, mx = false;
			for(size_t j = 0; j < es.size(); ++j) if(es[j].h == h && es[j].c == es[i].c) {
				if(j < i) first = false;
				if(es[j].mesh) (es[j].max ? mx : mn) = true;
			}
			if(!first) continue;
			size_t n = 0; MeshlinePolicy* p = nullptr;
			for(auto& q : ps) if(q->coord.value() == (double) es[i].c) { ++n; p = q.get(); }
			bool any = mn || mx; expected += any;
			sym_assert(n == (any ? 1u : 0u), "a place with edges to mesh has exactly one policy, others none");
			if(!p || !any) continue;
			auto const& s = p->get_current_state();
			sym_assert(s.policy == (mn && mx ? MP::Policy::HALFS : MP::Policy::THIRDS), "edges facing both ways are meshed with halves, edges facing one way with thirds");
			sym_assert(s.normal == (mn && mx ? MP::Normal::NONE : mn ? MP::Normal::MIN : MP::Normal::MAX), "the thirds follow the side of the edges");
			sym_assert(s.is_enabled && p->axis == axis, "the policy is enabled and on the axis across the edge");
		}
		sym_assert(ps.size() == expected, "there is no policy without an edge to mesh");
	}
	Axis out = plane == YZ ? X : plane == ZX ? Y : Z;
	sym_assert(b.get_meshline_policies(out).empty(), "no policy on the axis out of the plane");
}
static void steps(Board& b) { b.detect_colinear_edges(); b.auto_solve_all_colinear_edges(); b.detect_individual_edges(); }
static void collect(Board& b, Plane plane, std::vector<Want>& es) {
	for(auto& p : b.get_polygons(plane)) for(auto& e : p->edges) {
		auto const& s = e->get_current_state();
		if(e->axis != Segment::Axis::H && e->axis != Segment::Axis::V) continue;
		bool h = e->axis == Segment::Axis::H;
		bool max = e->normal == Normal::XMAX || e->normal == Normal::YMAX;
		(void) up;
		es.push_back({ h, (int64_t) (h ? e->p0().y : e->p0().x).value(), max != s.to_reverse, s.to_mesh });
	}
}
SYM_CASE(boxes, 0, "two boxes anywhere in any plane (coordinates |k| <= 1000), any one edge reversed, any one not to mesh, those of the second also in another conflict") {
	auto plane = (Plane) sym_pick("plane", 0, 2);
	IP a = ip("ax", "ay", -1000, 1000), b = ip("bx", "by", -1000, 1000), c = ip("cx", "cy", -1000, 1000), d = ip("dx", "dy", -1000, 1000);
	sym_assume(a.x < b.x); sym_assume(a.y < b.y); sym_assume(c.x < d.x); sym_assume(c.y < d.y);
	Board::Builder builder;
	builder.add_polygon_from_box(plane, nullptr, "a", 1, { 0, 1 }, dp(a), dp(b));
	builder.add_polygon_from_box(plane, nullptr, "b", 1, { 0, 1 }, dp(c), dp(d));
	auto board = builder.build();
	int off = (int) sym_pick("off", 0, 4), rev = (int) sym_pick("rev", 0, 8);
	std::vector<Want> es; int k = 0; auto* e0 = board->get_polygons(plane)[1]->edges[0].get(); ConflictEdgeInPolygon hiding(plane, e0, board->get_polygons(plane)[0].get(), Range(e0->p0(), e0->p1()), std::nullopt, Caretaker::singleton().get_history_root());
	// expected normals follow from the corners alone
	for(int p = 0; p < 2; ++p) { IP lo = p ? c : a, hi = p ? d : b;
		for(auto& e : board->get_polygons(plane)[p]->edges) {
			bool h = e->axis == Segment::Axis::H; int64_t at = (int64_t) (h ? e->p0().y : e->p0().x).value();
			bool max = h ? at == hi.y : at == hi.x; (void) lo;
			++k; auto s = e->get_current_state();
			if(k == off) { s.to_mesh = false; max = max; } if(k == rev) { s.to_reverse = true; }
			if(p) s.conflicts.push_back(&hiding), s.conflict = &hiding; // partly hidden: already in a conflict of another kind
			if(p || k == off || k == rev) e->set_next_state(s);
			es.push_back({ h, at, max != (k == rev), k != off });
		} }
	steps(*board); compare(*board, plane, es);
}
SYM_CASE(ell, 0, "an L-shaped outline and a box in one plane (coordinates |k| <= 1000), edges of the box reversed or not to mesh at will") {
	int64_t x0 = sym_int("x0", -1000, 1000), x1 = sym_int("x1", -1000, 1000), x2 = sym_int("x2", -1000, 1000), y0 = sym_int("y0", -1000, 1000), y1 = sym_int("y1", -1000, 1000), y2 = sym_int("y2", -1000, 1000);
	IP c = ip("cx", "cy", -1000, 1000), d = ip("dx", "dy", -1000, 1000);
	sym_assume(x0 < x1); sym_assume(x1 < x2); sym_assume(y0 < y1); sym_assume(y1 < y2); sym_assume(c.x < d.x); sym_assume(c.y < d.y);
	Board::Builder builder;
	builder.add_polygon(XY, nullptr, "l", 1, { 0, 1 }, { dp({ x0, y0 }), dp({ x2, y0 }), dp({ x2, y1 }), dp({ x1, y1 }), dp({ x1, y2 }), dp({ x0, y2 }) });
	builder.add_polygon_from_box(XY, nullptr, "b", 1, { 0, 1 }, dp(c), dp(d));
	auto board = builder.build();
	std::vector<Want> es { { true, y0, false, true }, { true, y1, true, true }, { true, y2, true, true }, { false, x0, false, true }, { false, x1, true, true }, { false, x2, true, true } };
	int k = 0;
	for(auto& e : board->get_polygons(XY)[1]->edges) {
		bool h = e->axis == Segment::Axis::H; int64_t at = (int64_t) (h ? e->p0().y : e->p0().x).value();
		int what = h ? (int) sym_pick(("e" + std::to_string(k++)).c_str(), 0, 2) : 0;
		auto s = e->get_current_state(); s.to_mesh = what != 1; s.to_reverse = what == 2; if(what) e->set_next_state(s);
		es.push_back({ h, at, (h ? at == d.y : at == d.x) != (what == 2), what != 1 });
	}
	steps(*board); compare(*board, XY, es);
}
SYM_CASE(three_boxes, 0, "three boxes whose left sides are anywhere on a line or not (|k| <= 100), any of them reversed or not to mesh") {
	Board::Builder builder; int64_t x[3]; 
	for(int i = 0; i < 3; ++i) { x[i] = sym_int(("x" + std::to_string(i)).c_str(), -100, 100); builder.add_polygon_from_box(ZX, nullptr, "b", 1, { 0, 1 }, Point((double) x[i], i * 10), Point(200 + i, i * 10 + 5)); }
	auto board = builder.build(); std::vector<Want> es;
	for(int i = 0; i < 3; ++i) for(auto& e : board->get_polygons(ZX)[i]->edges) {
		bool h = e->axis == Segment::Axis::H; int64_t at = (int64_t) (h ? e->p0().y : e->p0().x).value();
		bool left = !h && at < 150; int what = left ? (int) sym_pick(("e" + std::to_string(i)).c_str(), 0, 2) : 0;
		auto s = e->get_current_state(); s.to_mesh = what != 1; s.to_reverse = what == 2; if(what) e->set_next_state(s);
		es.push_back({ h, at, (h ? at == i * 10 + 5 : !left) != (what == 2), what != 1 });
	}
	steps(*board); compare(*board, ZX, es);
}
// Edges without a side (colinear outlines) ask for a single line.
static void sideless(int lo, int hi) {
	Timepoint* t = Caretaker::singleton().get_history_root(); GlobalParams g(params(12, 2, 2), t);
	auto m = std::make_shared<MeshlinePolicyManager>(&g, t); auto cm = std::make_shared<ConflictManager>(t); m->init(cm.get()); cm->init(m.get());
	Caretaker::singleton().take_care_of(m); Caretaker::singleton().take_care_of(cm);
	auto plane = (Plane) sym_pick("plane", 0, 2); bool h = sym_pick("h", 0, 1); int n = (int) sym_pick("n", lo, hi); int64_t c = sym_int("c", -1000, 1000);
	std::vector<Point> pts; pts.reserve(8); std::vector<std::shared_ptr<Edge>> es; bool mn = false, mx = false, none = false;
	for(int i = 0; i < n; ++i) {
		pts.emplace_back(h ? Point(i * 10, (double) c) : Point((double) c, i * 10)); pts.emplace_back(h ? Point(i * 10 + 5, (double) c) : Point((double) c, i * 10 + 5));
		auto e = std::make_shared<Edge>(plane, &pts[2 * i], &pts[2 * i + 1], t); Caretaker::singleton().take_care_of(e);
		std::string k = std::to_string(i);
		int side = (int) sym_pick(("side" + k).c_str(), 0, 2); bool mesh = sym_pick(("mesh" + k).c_str(), 0, 1), rev = i == 0 && sym_pick(("rev" + k).c_str(), 0, 1);
		e->normal = side == 0 ? Normal::NONE : h ? (side == 1 ? Normal::YMIN : Normal::YMAX) : (side == 1 ? Normal::XMIN : Normal::XMAX);
		auto s = e->get_current_state(); s.to_mesh = mesh; s.to_reverse = rev; e->set_next_state(s);
		if(mesh) { if(side == 0) none = true; else ((side == 1) != rev ? mn : mx) = true; }
		es.push_back(e);
		if(i) cm->add_colinear_edges(es[sym_pick(("with" + k).c_str(), 0, 1) ? i - 1 : 0].get(), e.get());
	}
	Axis axis = transpose(plane, h ? V : H);
	sym_assert(cm->get_colinear_edges(axis).size() == 1, "edges on one line form one conflict");
	for(auto& e : es) sym_assert(e->get_current_state().conflicts.size() == 1, "every edge knows its conflict once");
	cm->auto_solve_all_colinear_edges(axis);
	auto const& ps = m->get_meshline_policies(axis); bool any = mn || mx || none;
	sym_assert(ps.size() == (any ? 1u : 0u), "a line of edges gives one policy, none if no edge is to mesh");
	sym_assert(cm->get_colinear_edges(axis).front()->get_current_state().is_solved == any, "the conflict is solved when it gave a policy");
	if(!any) return;
	auto const& s = ps[0]->get_current_state();
	sym_assert(ps[0]->coord.value() == (double) c && s.is_enabled, "the policy is enabled, where the edges are");
	sym_assert(s.policy == (none ? MP::Policy::ONELINE : mn && mx ? MP::Policy::HALFS : MP::Policy::THIRDS), "an edge without side asks for one line, edges facing both ways for halves, one way for thirds");
	sym_assert(s.normal == (none || (mn && mx) ? MP::Normal::NONE : mn ? MP::Normal::MIN : MP::Normal::MAX), "the thirds follow the side of the edges");
}
SYM_CASE(sideless2, 0, "the solving of 2 edges on a line with any sides, to mesh or not, reversed or not") { sideless(2, 2); }
SYM_CASE(sideless3, 0, "the solving of 3 edges on a line with any sides, to mesh or not, reversed or not") { sideless(3, 3); }
SYM_CASE(sideless4, 1, "the solving of 4 edges on a line with any sides, to mesh or not, reversed or not") { sideless(4, 4); }
SYM_CASE(coherence, 0, "adding any policy with any normal") {
	Timepoint* t = Caretaker::singleton().get_history_root(); GlobalParams g(params(12, 2, 2), t);
	auto m = std::make_shared<MeshlinePolicyManager>(&g, t); Caretaker::singleton().take_care_of(m);
	auto p = (MP::Policy) sym_int("policy", 0, 2); auto n = (MP::Normal) sym_int("normal", 0, 2); auto axis = (Axis) sym_pick("axis", 0, 2); double c = sym_grid("c", -1000, 1000, -3); bool en = sym_bool("enabled");
	auto* q = m->add_meshline_policy({}, axis, p, n, c, en);
	bool ok = (p == MP::Policy::THIRDS) == (n != MP::Normal::NONE);
	sym_assert((q != nullptr) == ok, "only the thirds policy has a side, and it always has one");
	sym_assert(m->get_meshline_policies(axis).size() == (ok ? 1u : 0u), "a refused policy leaves nothing");
	for(auto a : AllAxis) if(a != axis) sym_assert(m->get_meshline_policies(a).empty(), "other axes are not touched");
	if(q) { auto const& s = q->get_current_state(); sym_assert(s.policy == p && s.normal == n && s.is_enabled == en && q->axis == axis && q->coord.value() == c && s.d == 6, "the policy is the one asked for"); }
}
