// C31: an edit made before a step is honoured by that step and those after it.
#include "mesh.hpp"
#include "app/openemsh.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/geometrics/angle.hpp"
#include <algorithm>
using namespace domain;
using app::OpenEMSH; using app::Step;
namespace {
using Lines = std::vector<std::vector<double>>;
Lines lines(Board const& b) { Lines l(3); for(auto a : AllAxis) for(auto& m : b.get_meshlines(a)) l[(size_t) a].push_back(m->coord.value()); return l; }
bool same(Lines const& a, Lines const& b) { bool ok = true; for(size_t k = 0; k < 3; ++k) { if(a[k].size() != b[k].size()) return false; for(size_t i = 0; i < a[k].size(); ++i) ok = ok & near(a[k][i], b[k][i]); } return ok; }
// The steps up to where everything has its policies
void asked(OpenEMSH const& o, Step from) { std::set<Step> s; for(int i = (int) from; i <= (int) Step::DETECT_INDIVIDUAL_EDGES; ++i) s.insert((Step) i); o.run(s); }
// What the window does with an edit: the dialog takes the state shown, then the board goes before a step, is edited, and goes on.
template<class O, class F> void edit(OpenEMSH& o, Step from, O& what, F const& change, bool mesh = true) {
	auto s = what.get_current_state(); change(s); o.go_before(from); what.set_next_state(s); if(mesh) o.run_from_step(from); else asked(o, from);
}
auto metal() { return std::make_shared<Material>(Material::Type::CONDUCTOR, "m"); }
auto dielectric() { return std::make_shared<Material>(Material::Type::DIELECTRIC, "d"); }
// kinds: two boxes, close policies and fixed lines; a box and a triangle
void open(OpenEMSH& o, int kind, Params p, int64_t x) {
	Caretaker::singleton().reset(); Board::Builder b;
	b.add_polygon_from_box(XY, metal(), "a", 2, { 0, 1 }, dp({ x, 0 }), dp({ x + 60, 30 }));
	if(kind == 0) { b.add_polygon_from_box(XY, dielectric(), "b", 1, { 0, 1 }, dp({ x + 10, 0 }), dp({ x + 30, 60 })); b.add_fixed_meshline_policy(X, (double) (x + 62)); b.add_fixed_meshline_policy(Y, 90); }
	else b.add_polygon(ZX, dielectric(), "t", 1, { 0, 1 }, { dp({ 0, x }), dp({ 20, x }), dp({ 30, x + 20 }), dp({ 0, x + 50 }) });
	o.board = b.build(std::move(p)); Caretaker::singleton().remember_current_timepoint();
}
Params base() { Params p = params(12, 2, 2, 1); p.diagonal_dmax = 6; return p; }
void change(Params& p, int f, bool up) {
	switch(f) {
	case 0: p.proximity_limit = up ? 3 : 0; break;
	case 1: p.smoothness = up ? 1.5 : 1.25; break;
	case 2: p.lmin = up ? 4 : 1; break;
	case 3: p.dmax = up ? 20 : 7; break;
	case 4: p.consecutive_diagonal_minimal_angle = up ? 120 : 10; break;
	case 5: p.diagonal_dmax = up ? 9 : 3; break;
	case 6: p.diagonal_lmin = up ? 5 : 1; break;
	}
}
}
SYM_CASE(parameters, 0, "2 kinds of boards, any one parameter raised or lowered once meshed, then another; against boards made with these parameters") {
	int kind = (int) sym_pick("kind", 0, 1), f = (int) sym_pick("field", 0, 6), g = (f + (int) sym_pick("other", 1, 2)) % 7; bool up = sym_bool("up");
	int64_t x = kind ? 5 : sym_int("x", -1000, 1000);
	Params p[3] = { base(), base(), base() }; change(p[1], f, up); change(p[2], f, up); change(p[2], g, !up);
	Lines want[3]; for(int i = 0; i < 3; ++i) { OpenEMSH o({}); open(o, kind, p[i], x); o.run_all_steps(); want[i] = lines(*o.board); }
	OpenEMSH o({}); open(o, kind, p[0], x); o.run_all_steps(); auto& c = Caretaker::singleton(); sym_assert(same(lines(*o.board), want[0]), "the mesh is that of the parameters");
	for(int i = 1; i < 3; ++i) { edit(o, Step::DETECT_DIAG_ZONES, *o.board->global_params, [&](Params& q) { change(q, i == 1 ? f : g, i == 1 ? up : !up); }); sym_assert(same(lines(*o.board), want[i]), "edited parameters give the mesh of a board made with them"); }
	for(int i = 1; i >= 0; --i) { c.undo(); sym_assert(same(lines(*o.board), want[i]), "undoing an edit gives the former mesh back"); }
	for(int i = 1; i < 3; ++i) { c.redo(); sym_assert(same(lines(*o.board), want[i]), "redoing an edit gives its mesh back"); }
}
// Edges: one polygon, or two that share a side or overlap it in part; the edit of one or two edges.
SYM_CASE(edges, 0, "a box at any place alone, with another beside it at another height, or partly under one above all (3 places), with or without another whose sides are on the same lines; any two of its edges hidden or reversed") {
	int kind = (int) sym_pick("kind", 0, 3), n = (int) sym_pick("edits", 1, 2); Plane pl = (Plane) (n == 1 ? sym_pick("plane", 0, 2) : kind % 3); int64_t x = kind || n > 1 ? 9 * sym_pick("x", -1, n == 1 ? 1 : -1) : sym_int("x", -1000, 1000);
	Caretaker::singleton().reset(); OpenEMSH o({}); Board::Builder b;
	b.add_polygon_from_box(pl, metal(), "a", 1, { 0, 1 }, dp({ x, 0 }), dp({ x + 60, 40 }));
	if(kind == 1) b.add_polygon_from_box(pl, metal(), "b", 1, { 5, 6 }, dp({ x + 60, 0 }), dp({ x + 90, 80 }));
	if(kind == 3) b.add_polygon_from_box(pl, metal(), "d", 1, { 0, 1 }, dp({ x + 100, 0 }), dp({ x + 120, 40 }));
	if(kind >= 2) b.add_polygon_from_box(pl, metal(), "c", 2, { 0, 1 }, dp({ x + 20, -20 }), dp({ x + 80, 20 }));
	o.board = b.build(base()); Caretaker::singleton().remember_current_timepoint(); asked(o, Step::ADJUST_EDGE_TO_MATERIAL);
	Edge* at[2]; bool mesh[2], rev[2]; auto const& es = o.board->get_polygons(pl)[0]->edges;
	for(int i = 0; i < n; ++i) { std::string k = std::to_string(i); at[i] = es[(size_t) sym_pick(("edge" + k).c_str(), 0, 3)].get(); if(i) sym_assume(at[1] != at[0]); mesh[i] = sym_bool(("mesh" + k).c_str()); rev[i] = sym_bool(("reverse" + k).c_str());
		edit(o, Step::DETECT_CONFLICT_EIP, *at[i], [&](EdgeState& s) { s.to_mesh = mesh[i]; s.to_reverse = rev[i]; }, false); }
	struct Side { bool h, max; int64_t c; bool shown; }; std::vector<Side> sides;
	auto box = [&](Polygon& q, int64_t x0, int64_t y0, int64_t x1, int64_t y1) { for(auto& e : q.edges) { auto nm = e->normal; bool h = nm == domain::Normal::YMIN || nm == domain::Normal::YMAX, max = nm == domain::Normal::XMAX || nm == domain::Normal::YMAX, shown = true, r = false;
		for(int i = 0; i < n; ++i) if(at[i] == e.get()) { shown = mesh[i]; r = rev[i]; }
		sides.push_back({ h, max != r, h ? (max ? y1 : y0) : max ? x1 : x0, shown }); } };
	auto& ps = o.board->get_polygons(pl); box(*ps[0], x, 0, x + 60, 40); if(kind == 1) box(*ps[1], x + 60, 0, x + 90, 80); if(kind == 3) box(*ps[1], x + 100, 0, x + 120, 40); if(kind >= 2) box(*ps[(size_t) kind - 1], x + 20, -20, x + 80, 20);
	for(bool h : { false, true }) { auto const& all = o.board->get_meshline_policies(transpose(pl, h ? Segment::Axis::H : Segment::Axis::V).value()); size_t total = 0;
		for(size_t i = 0; i < sides.size(); ++i) if(sides[i].h == h) { bool first = true, mn = false, mx = false; for(size_t j = 0; j < sides.size(); ++j) if(sides[j].h == h && sides[j].c == sides[i].c) { if(j < i) first = false; if(sides[j].shown) (sides[j].max ? mx : mn) = true; }
			if(!first) continue; bool any = mn || mx; total += any; size_t found = 0;
			for(auto& q : all) if(near(q->coord.value(), (double) sides[i].c)) { ++found; auto const& s = q->get_current_state(); sym_assert(s.is_enabled && s.policy == (mn && mx ? MP::Policy::HALFS : MP::Policy::THIRDS) && s.normal == (mn && mx ? MP::Normal::NONE : mn ? MP::Normal::MIN : MP::Normal::MAX), "a reversed edge turns the policy of its place"); }
			sym_assert(found == (any ? 1u : 0u), "a hidden edge asks for nothing, a shown one is meshed"); }
		sym_assert(all.size() == total, "no other policy"); }
}
SYM_CASE(angles, 0, "a shape with 3 or 4 angles at any of 5 places in any plane, either axis of any angle meshed or not") {
	Plane pl = (Plane) sym_pick("plane", 0, 2); int64_t x = 9 * sym_pick("x", -2, 2); Caretaker::singleton().reset(); OpenEMSH o({}); Board::Builder b;
	b.add_polygon(pl, metal(), "t", 1, { 0, 1 }, { dp({ x, 0 }), dp({ x + 40, 0 }), dp({ x + 60, 40 }), dp({ x, 90 }) });
	o.board = b.build(base()); Caretaker::singleton().remember_current_timepoint(); o.run_all_steps();
	auto as = o.board->get_angles(pl); sym_assert(as.size() == 3, "an angle at every end of a diagonal"); size_t k = (size_t) sym_pick("angle", 0, 2); bool h = sym_bool("h"), v = sym_bool("v"), before[3][2]; for(size_t i = 0; i < 3; ++i) { before[i][0] = as[i]->get_current_state().to_mesh[H]; before[i][1] = as[i]->get_current_state().to_mesh[V]; }
	before[k][0] = h; before[k][1] = v; edit(o, Step::DETECT_CONFLICT_EIP, *as[k], [&](AngleState& s) { s.to_mesh[H] = h; s.to_mesh[V] = v; });
	o.go_before(Step::DETECT_AND_SOLVE_TCMLP);
	for(size_t i = 0; i < 3; ++i) for(ViewAxis a : AllViewAxis) { size_t n = 0; for(auto& q : o.board->get_meshline_policies(Axes[pl][a])) { auto const& s = q->get_current_state(); if(s.origins.size() == 1 && s.origins[0] == static_cast<IMeshLineOrigin*>(as[i].get())) { ++n; sym_assert(s.is_enabled == before[i][a == H ? 0 : 1], "an angle is meshed on an axis exactly when asked to"); sym_assert(s.policy == MP::Policy::HALFS && near(q->coord.value(), coord(as[i]->p, a).value()), "with halves at its place"); } }
		sym_assert(n == 1, "one policy on each axis"); }
}
// What lies around a policy in the mesh: its own line, or its two at their shares of d.
static void policy_lines(Board const& b, Axis axis, MeshlinePolicy& p) {
	auto const& s = p.get_current_state(); auto l = lines(b)[(size_t) axis]; double c = p.coord.value(); bool first = true, last = true; size_t ends = 0, own = 0;
	for(auto& i : b.get_intervals(axis)) { auto const& t = i->get_current_state(); if(t.before.meshline_policy == &p) { ++ends; last = false; } if(t.after.meshline_policy == &p) { ++ends; first = false; } }
	for(auto& m : b.get_meshlines(axis)) own += m->policy == &p;
	if(!s.is_enabled) { sym_assert(ends == 0 && own == 0, "a disabled policy takes no part in the mesh"); return; }
	sym_assert(ends == (size_t) (!first + !last) && ends > 0, "a policy in use ends the intervals beside it");
	double lo = s.policy == MP::Policy::ONELINE ? 0 : s.policy == MP::Policy::HALFS ? 3 : s.normal == MP::Normal::MIN ? 4 : 2, hi = s.policy == MP::Policy::ONELINE ? 0 : s.policy == MP::Policy::HALFS ? 3 : s.normal == MP::Normal::MIN ? 2 : 4;
	if(!lo) { size_t n = 0; for(double x : l) n += near(x, c); sym_assert(n == 1, "one line, at the policy"); return; }
	bool below = false, above = false, between = false;
	for(double x : l) { if(near((c - x) * 6, s.d * lo)) below = true; if(near((x - c) * 6, s.d * hi)) above = true; if((c - x) * 6 < s.d * lo - 1e-6 && (x - c) * 6 < s.d * hi - 1e-6) between = true; }
	sym_assert(!between, "no line between the two of a policy"); if(!first) sym_assert(below, "a line below, at its share"); if(!last) sym_assert(above, "a line above, at its share");
}
SYM_CASE(policies, 0, "a box and a fixed line at any place, any of their policies made of any kind, used or not, with a distance of 1, 3, 8 or 30") {
	int64_t x = sym_int("x", -1000, 1000); Caretaker::singleton().reset(); OpenEMSH o({}); Board::Builder b;
	b.add_polygon_from_box(YZ, metal(), "a", 1, { 0, 1 }, dp({ x, 0 }), dp({ x + 60, 40 })); b.add_fixed_meshline_policy(Y, (double) (x + 84));
	o.board = b.build(base()); Caretaker::singleton().remember_current_timepoint(); o.run_all_steps();
	auto ps = o.board->get_meshline_policies(Y); sym_assert(ps.size() == 3, "three policies"); size_t k = (size_t) sym_pick("policy", 0, 2); int kind = (int) sym_pick("kind", 0, 3); bool on = sym_bool("on"); static double const ds[] = { 1, 3, 8, 30 }; double d = ds[sym_pick("d", 0, 3)];
	edit(o, Step::DETECT_INTERVALS, *ps[k], [&](MeshlinePolicyState& s) { s.policy = kind == 0 ? MP::Policy::ONELINE : kind == 1 ? MP::Policy::HALFS : MP::Policy::THIRDS; s.normal = kind == 2 ? MP::Normal::MIN : kind == 3 ? MP::Normal::MAX : MP::Normal::NONE; s.is_enabled = on; s.d = d; });
	auto const& s = ps[k]->get_current_state(); sym_assert(s.is_enabled == on && s.policy == (kind == 0 ? MP::Policy::ONELINE : kind == 1 ? MP::Policy::HALFS : MP::Policy::THIRDS) && s.normal == (kind == 2 ? MP::Normal::MIN : kind == 3 ? MP::Normal::MAX : MP::Normal::NONE), "a policy stays as edited");
	sym_assert(s.d > 0 && at_most(s.d, d), "the distance wanted is not exceeded"); if(!on) sym_assert(s.d == d, "nor touched while not in use");
	for(auto& p : ps) policy_lines(*o.board, Y, *p);
	std::vector<double> at; for(auto& p : ps) if(p->get_current_state().is_enabled) at.push_back(p->coord.value()); std::sort(at.begin(), at.end());
	auto const& is = o.board->get_intervals(Y); sym_assert(is.size() + 1 == at.size(), "intervals between the policies in use");
	auto l = lines(*o.board)[(size_t) Y]; for(size_t i = 1; i < l.size(); ++i) { sym_assert(l[i] > l[i - 1], "lines are ordered"); sym_assert(at_most(l[i] - l[i - 1], 12), "no gap exceeds dmax"); }
}
SYM_CASE(intervals, 0, "a box at any place; dmax 2, 5 or 12, 1 or 4 lines and a smoothness of 1.25 or 2 asked of either half of its width once meshed") {
	int64_t x = sym_int("x", -1000, 1000); Caretaker::singleton().reset(); OpenEMSH o({}); Board::Builder b;
	b.add_polygon_from_box(XY, metal(), "a", 1, { 0, 1 }, dp({ x, 0 }), dp({ x + 60, 40 })); b.add_fixed_meshline_policy(X, (double) (x - 30));
	o.board = b.build(base()); Caretaker::singleton().remember_current_timepoint(); o.run_all_steps();
	auto is = o.board->get_intervals(X); sym_assert(is.size() == 2, "two intervals"); size_t k = (size_t) sym_pick("interval", 0, 1); static double const ds[] = { 2, 5, 12 }; double dmax = ds[sym_pick("dmax", 0, 2)]; size_t lb = sym_bool("lb") ? 4 : 1, la = sym_bool("la") ? 4 : 1; double sb = sym_bool("sb") ? 1.25 : 2, sa = sym_bool("sa") ? 1.25 : 2;
	edit(o, Step::MESH, *is[k], [&](IntervalState& s) { s.dmax = dmax; s.before.lmin = lb; s.after.lmin = la; s.before.smoothness = sb; s.after.smoothness = sa; });
	auto& i = *is[k]; auto const& s = i.get_current_state(); auto* pb = s.before.meshline_policy; auto* pa = s.after.meshline_policy; double from = pb->coord.value(), to = pa->coord.value(), mid = (from + to) / 2; std::vector<double> in;
	auto all = lines(*o.board)[(size_t) X]; for(double l : all) if(l > from - 1e-6 && l < to + 1e-6) in.push_back(l);
	size_t m = 0, nb = 0, na = 0; for(size_t j = 0; j < in.size(); ++j) if(near(in[j], mid)) m = j;
	sym_assert(m > 0 && m + 1 < in.size(), "a line in the middle"); if(!m) return;
	for(size_t j = 1; j < in.size(); ++j) { double w = in[j] - in[j - 1]; sym_assert(at_most(w, dmax), "no gap of the interval exceeds the dmax asked of it"); (j <= m ? nb : na)++; }
	for(size_t j = 2; j <= m; ++j) sym_assert(at_most(in[j] - in[j - 1], (in[j - 1] - in[j - 2]) * sb), "gaps grow no faster than asked in the first half");
	for(size_t j = m; j + 2 < in.size(); ++j) sym_assert(at_most(in[j + 1] - in[j], (in[j + 2] - in[j + 1]) * sa), "nor in the second");
	sym_assert(nb >= lb && na >= la, "each half has the lines asked of it"); sym_assert(s.before.lmin == lb && s.after.lmin == la, "what was asked stays");
	for(auto& p : o.board->get_meshline_policies(X)) policy_lines(*o.board, X, *p);
}
// Zones: a shape with angles in the midst of both zones.
static void zone_board(OpenEMSH& o, Params p, int64_t x) { Caretaker::singleton().reset(); Board::Builder b;
	b.add_polygon(ZX, metal(), "t", 1, { 0, 1 }, { dp({ x, 0 }), dp({ x + 30, 10 }), dp({ x + 60, 0 }), dp({ x + 50, 40 }), dp({ x + 70, 80 }), dp({ x + 10, 60 }) });
	o.board = b.build(std::move(p)); Caretaker::singleton().remember_current_timepoint(); o.run_all_steps(); }
SYM_CASE(zone_angles, 0, "a shape with 6 angles at one of 3 places, the least angle asked of a zone from 5 to 180 degrees") {
	OpenEMSH o({}); zone_board(o, base(), 9 * sym_pick("x", -1, 1)); Axis axis = sym_bool("z") ? Z : X; ViewAxis va = transpose(ZX, axis).value();
	auto const& zs = o.board->get_conflicts_diagonal_or_circular_zones(axis); sym_assert(zs.size() == 1, "one zone"); if(zs.size() != 1) return; auto z = zs[0]; int least = (int) sym_pick("least", 1, 36) * 5;
	edit(o, Step::SOLVE_DIAG_ZONES_ANGLES, *z, [&](ConflictDiagonalOrCircularZoneState& s) { s.minimal_angle = least; });
	auto const& as = z->get_current_state().angles; sym_assert(z->get_current_state().minimal_angle == least, "what was asked stays");
	for(size_t i = 0; i < as.size(); ++i) sym_assert(as[i]->get_current_state().to_mesh[va] == (i == 0 || i + 1 == as.size() || as[i]->angle.value() >= least), "inner angles of a zone are meshed exactly when not below the least angle asked of it");
	Axis other = axis == Z ? X : Z; ViewAxis vo = transpose(ZX, other).value(); for(auto& y : o.board->get_conflicts_diagonal_or_circular_zones(other)) { auto const& bs = y->get_current_state().angles; for(size_t i = 0; i < bs.size(); ++i) sym_assert(bs[i]->get_current_state().to_mesh[vo] == (i == 0 || i + 1 == bs.size() || bs[i]->angle.value() >= 20), "other zones keep theirs"); }
}
SYM_CASE(zone_lines, 0, "a shape with 6 angles at one of 3 places, a dmax of 2..12 asked of a zone once meshed") {
	OpenEMSH o({}); Params p = base(); p.diagonal_lmin = (size_t) sym_pick("dlmin", 1, 3); zone_board(o, p, 9 * sym_pick("x", -1, 1)); Axis axis = sym_bool("z") ? Z : X;
	auto const& zs = o.board->get_conflicts_diagonal_or_circular_zones(axis); sym_assert(zs.size() == 1, "one zone"); if(zs.size() != 1) return; auto z = zs[0]; double dmax = (double) sym_pick("dmax", 2, 12);
	sym_assert(z->get_current_state().lmin == p.diagonal_lmin && z->get_current_state().dmax == 6 && z->get_current_state().minimal_angle == 20, "a zone starts with the parameters of diagonals");
	edit(o, Step::SOLVE_DIAG_ZONES_INTERVALS, *z, [&](ConflictDiagonalOrCircularZoneState& s) { s.dmax = dmax; });
	auto bounds = z->bounding(); double lo = bounds[0].value(), hi = bounds[1].value(); auto l = lines(*o.board)[(size_t) axis]; size_t n = 0;
	for(size_t i = 1; i < l.size(); ++i) if(l[i - 1] > lo - 1e-6 && l[i] < hi + 1e-6) { ++n; sym_assert(at_most(l[i] - l[i - 1], dmax), "no gap in a zone exceeds the dmax asked of it"); }
	sym_assert(n > 0, "the zone is meshed");
}
