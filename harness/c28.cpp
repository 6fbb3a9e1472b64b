// C28: diagrams and listings show the board as it is.
#include "mesh.hpp"
#include "app/openemsh.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "infra/serializers/serializer_to_plantuml.hpp"
#include "infra/serializers/serializer_to_prettyprint.hpp"
#include "infra/utils/to_string.hpp"
#include <charconv>
#include <map>
#include <set>
using namespace domain;
using S = std::string;
namespace {
double number(S const& s) { double v = -1; std::from_chars(s.data(), s.data() + s.size(), v); return v; }
bool starts(S const& s, char const* p) { return s.rfind(p, 0) == 0; }
struct Node { S title, color, parent; std::multimap<S, S> attr; };
struct Diagram {
	std::map<S, Node> nodes; std::set<S> pins; std::multiset<std::pair<S, S>> links; bool sound = true; S why;
	void bad(char const* w) { sound = false; if(why.empty()) why = w; }
	explicit Diagram(S const& t) {
		std::vector<S> stack, ls; size_t b = 0; for(size_t i = 0; i < t.size(); ++i) if(t[i] == '\n') { ls.push_back(t.substr(b, i - b)); b = i + 1; }
		if(b != t.size() || ls.size() < 2 || ls.front() != "@startuml" || ls.back() != "@enduml") { bad("frame"); return; }
		for(size_t i = 1; i + 1 < ls.size(); ++i) { S l = ls[i]; while(!l.empty() && l.back() == ' ') l.pop_back();
			if(l == "}") { if(stack.empty()) { bad("brace"); return; } stack.pop_back(); }
			else if(starts(l, "state \"")) { size_t q = l.find("\" as "); if(q == S::npos) { bad("state"); return; } S title = l.substr(7, q - 7), rest = l.substr(q + 5), id = rest.substr(0, rest.find(' ')), more = rest.size() > id.size() ? rest.substr(id.size() + 1) : "";
				if(nodes.count(id) || pins.count(id)) { bad("declared twice"); return; }
				if(more.find("<<") != S::npos) pins.insert(id);
				else { if(more.empty() || more.back() != '{') { bad("open"); return; } nodes[id] = { title, more.substr(0, more.find(' ')) == "{" ? "" : more.substr(0, more.find(' ')), stack.empty() ? "" : stack.back(), {} }; stack.push_back(id); } }
			else if(l.find("-> ") != S::npos) { links.insert({ l.substr(0, l.find(' ')), l.substr(l.rfind(' ') + 1) }); }
			else if(size_t c = l.find(" : "); c != S::npos) { S id = l.substr(0, c), r = l.substr(c + 3); size_t e = r.find(" = "); if(!nodes.count(id) || e == S::npos) { bad("attribute"); return; } nodes[id].attr.insert({ r.substr(0, e), r.substr(e + 3) }); }
			else { bad("line"); return; } }
		if(!stack.empty()) bad("open to the end");
		for(auto& [f, to] : links) if((!nodes.count(f) && !pins.count(f)) || (!nodes.count(to) && !pins.count(to))) bad("link to nothing");
	}
	Node const* at(size_t id) const { auto i = nodes.find(std::to_string(id)); return i == nodes.end() ? nullptr : &i->second; }
	bool has(size_t id, char const* title, S const& parent) const { auto* n = at(id); return n && n->title == title && n->parent == parent; }
	bool is(size_t id, char const* key, S const& v) const { auto* n = at(id); if(!n || n->attr.count(key) != 1) return false; return n->attr.find(key)->second == v; }
	double value(size_t id, char const* key) const { auto* n = at(id); if(!n || n->attr.count(key) != 1) return -12345; return number(n->attr.find(key)->second); }
	size_t link(S const& a, S const& b) const { return links.count({ a, b }); }
};
S id(size_t i) { return std::to_string(i); }
static char const* const planes[] = { "YZ", "ZX", "XY" };
static char const* const axes[] = { "X", "Y", "Z" };
static char const* const normals[] = { "XMIN", "XMAX", "YMIN", "YMAX", "ZMIN", "ZMAX", "NONE" };
S name(Normal n) { switch(n) { case Normal::XMIN: return normals[0]; case Normal::XMAX: return normals[1]; case Normal::YMIN: return normals[2]; case Normal::YMAX: return normals[3]; case Normal::ZMIN: return normals[4]; case Normal::ZMAX: return normals[5]; default: return normals[6]; } }
S name(MP::Normal n) { return n == MP::Normal::MIN ? "MIN" : n == MP::Normal::MAX ? "MAX" : "NONE"; }
S name(MP::Policy p) { return p == MP::Policy::ONELINE ? "ONELINE" : p == MP::Policy::HALFS ? "HALFS" : "THIRDS"; }
struct Bench { app::OpenEMSH o { {} }; Board* b;
	explicit Bench(int steps) {
		Board::Builder bb; int64_t x = steps < 15 ? sym_int("x", -1000, 1000) : 7 * sym_pick("x", -1, 1);
		auto m = std::make_shared<Material>(Material::Type::CONDUCTOR, "m"), d = std::make_shared<Material>(Material::Type::DIELECTRIC, "d");
		Plane pl = (Plane) sym_pick("plane", 0, 2); int k = (int) sym_pick("kind", 0, 3); bool hide = sym_pick("hidden", 0, 1);
		bb.add_polygon_from_box(pl, m, "a", 2, { 0, 1 }, dp({ x, 0 }), dp({ x + 60, 30 }));
		if(k < 3) bb.add_polygon_from_box(pl, d, "b", 1, { 0, 1 }, dp({ x + (k == 0 ? 60 : 10), 0 }), dp({ x + (k == 1 ? 30 : 90), 60 }));
		else { bb.add_polygon_from_box(pl, d, "b", 3, { 0, 1 }, dp({ x, 30 }), dp({ x + 30, 60 })); bb.add_polygon_from_box(pl, d, "c", 3, { 0, 1 }, dp({ x + 30, 30 }), dp({ x + 60, 60 })); }
		bb.add_fixed_meshline_policy(X, (double) (x + 61)); bb.add_fixed_meshline_policy(Y, (double) (x + 61));
		o.board = bb.build(params(12, 2, 2)); b = o.board.get();
		for(int i = 0; i < steps; ++i) o.run_next_step();
		if(hide) for(auto& q : b->get_polygons(pl)) for(auto& e : q->edges) if(e->axis == Segment::Axis::H) { auto s = e->get_current_state(); s.to_mesh = false; e->set_next_state(s); }
	} };
int const stages[] = { 0, 6, 9, 11, 15 };
}
SYM_CASE(diagram, 0, "two or three boxes in any plane, 4 relations, horizontal edges hidden afterwards or not, at any place (|k| <= 1000; 3 places once meshed), after 0, 6, 9, 11 or 15 steps") {
	Bench h(stages[sym_pick("stage", 0, 4)]); Board& b = *h.b;
	Diagram d(SerializerToPlantuml::run(b)); size_t n = 6;
	sym_assert(d.sound, "the diagram is well formed, shows nothing twice and links nothing it does not show");
	if(!d.sound) return;
	for(auto pl : AllPlane) { auto* pn = d.nodes.count(planes[pl]) ? &d.nodes[planes[pl]] : nullptr; sym_assert(pn && pn->title == S("Plane ") + planes[pl] && pn->parent.empty(), "every plane is shown");
		for(auto& p : b.get_polygons(pl)) { ++n; sym_assert(d.has(p->id, ("Polygon " + p->name).c_str(), planes[pl]), "every polygon is shown in its plane"); sym_assert(d.is(p->id, "rotation", p->rotation == Polygon::Rotation::CW ? "CW" : p->rotation == Polygon::Rotation::CCW ? "CCW" : "COLINEAR"), "its rotation is shown");
			for(auto& e : p->edges) { ++n; bool on = e->get_current_state().to_mesh; sym_assert(d.has(e->id, "Edge", id(p->id)), "every edge is shown in its polygon"); sym_assert(d.is(e->id, "Normal", name(e->normal)) && d.is(e->id, "To mesh", on ? "true" : "false"), "the normal of an edge and whether it is to mesh are shown");
				sym_assert(d.at(e->id)->color == (on ? e->get_current_state().conflicts.empty() ? "#chartreuse" : "#green" : "#red"), "the colour of an edge tells whether it is to mesh and in conflict"); } }
		for(auto& c : b.get_conflicts_edge_in_polygons(pl)) { ++n; sym_assert(d.has(c->id, "Conflict EdgeInPolygon", planes[pl]), "every conflict of an edge is shown in its plane"); sym_assert(d.at(c->id)->color == (c->edge->get_current_state().to_mesh ? "#green" : "#red"), "its colour tells whether its edge is to mesh");
			sym_assert(d.link(id(c->edge->id), id(c->id)) == 1 && d.link(id(c->id) + "_out", id(c->edge->id)) == 1, "it is linked with its edge");
			size_t i = 0; for(auto& [p, r, e] : c->get_current_state().overlaps) { S in = id(c->id) + "_in" + id(i++); sym_assert(d.link(id(p->id) + "_out", in) == 1, "it is linked with its polygons"); if(e) sym_assert(d.link(id(e.value()->id), in) == 1, "it is linked with the edges over it"); } } }
	for(auto a : AllAxis) { auto* an = d.nodes.count(axes[a]) ? &d.nodes[axes[a]] : nullptr; sym_assert(an && an->title == S("Axis ") + axes[a] && an->parent.empty(), "every axis is shown");
		for(auto& p : b.get_meshline_policies(a)) { ++n; auto& s = p->get_current_state(); sym_assert(d.has(p->id, "MeshlinePolicy", axes[a]), "every policy is shown on its axis");
			sym_assert(d.is(p->id, "Policy", name(s.policy)) && d.is(p->id, "Normal", name(s.normal)) && d.is(p->id, "Is enabled", s.is_enabled ? "true" : "false"), "the kind, side and use of a policy are shown"); sym_assert(d.at(p->id)->color == (s.is_enabled ? "#green" : "#red"), "its colour tells its use"); sym_assert(near(d.value(p->id, "d"), s.d), "its distance is shown"); }
		for(auto& i : b.get_intervals(a)) { ++n; auto& s = i->get_current_state(); sym_assert(d.has(i->id, "Interval", axes[a]), "every interval is shown on its axis");
			sym_assert(near(d.value(i->id, "dmax"), s.dmax) && near(d.value(i->id, "before.smoothness"), s.before.smoothness) && near(d.value(i->id, "after.smoothness"), s.after.smoothness), "its limits are shown"); sym_assert(d.is(i->id, "before.lmin", id(s.before.lmin)) && d.is(i->id, "after.lmin", id(s.after.lmin)), "its minimum counts are shown");
			sym_assert(d.link(id(s.before.meshline_policy->id) + "_out", id(i->id) + "_in1") == 1 && d.link(id(s.after.meshline_policy->id) + "_out", id(i->id) + "_in2") == 1, "it is linked with its policies"); }
		for(auto& l : b.get_meshlines(a)) { ++n; sym_assert(d.has(l->id, "Meshline", axes[a]), "every line is shown on its axis"); sym_assert(near(d.value(l->id, "Coord"), l->coord.value()), "its place is shown");
			if(l->interval) sym_assert(d.link(id(l->interval->id) + "_out", id(l->id)) == 1, "it is linked with its interval"); if(l->policy) sym_assert(d.link(id(l->policy->id) + "_out", id(l->id)) == 1, "it is linked with its policy"); }
		for(auto& c : b.get_conflicts_colinear_edges(a)) { ++n; sym_assert(d.has(c->id, "Conflict ColinearEdges", axes[a]), "every conflict of edges is shown on its axis"); for(auto* e : c->get_current_state().edges) sym_assert(d.link(id(e->id), id(c->id) + "_in") == 1, "it is linked with its edges");
			if(auto* s = dynamic_cast<MP*>(c->get_current_state().solution)) sym_assert(d.link(id(c->id) + "_out", id(s->id) + "_in") == 1 && d.is(c->id, "Solution.policy", name(s->get_current_state().policy)) && d.is(c->id, "Solution.normal", name(s->get_current_state().normal)), "its solution is shown and linked"); }
		for(auto& c : b.get_conflicts_too_close_meshline_policies(a)) { ++n; sym_assert(d.has(c->id, "Conflict TooCloseMeshlinePolicies", axes[a]), "every conflict of policies is shown on its axis"); for(auto* p : c->meshline_policies) sym_assert(d.link(id(p->id) + "_out", id(c->id) + "_in") == 1, "it is linked with its policies");
			if(auto* s = dynamic_cast<MP*>(c->get_current_state().solution)) sym_assert(d.link(id(c->id) + "_out", id(s->id) + "_in") == 1, "its solution is linked"); } }
	sym_assert(d.nodes.size() == n, "nothing else is shown"); sym_observe_int((int64_t) d.links.size());
}
SYM_CASE(parts, 0, "any parts of a diagram left out, after 15 steps") {
	Bench h(15); SerializerToPlantuml::Params p; p.with_geometric_part = sym_bool("geometry"); p.with_axis_part = sym_bool("axes"); p.with_conflict_edge_in_polygon = sym_bool("eip"); p.with_conflict_colinear_edges = sym_bool("ce"); p.with_conflict_too_close_meshline_policies = sym_bool("tcmlp");
	Diagram d(SerializerToPlantuml::run(*h.b, p)); size_t n[6] = {}; sym_assert(d.sound || d.why == "link to nothing", "the diagram is well formed");
	for(auto& [i, x] : d.nodes) { n[0] += starts(x.title, "Polygon"); n[1] += starts(x.title, "Axis"); n[2] += x.title == "Conflict EdgeInPolygon"; n[3] += x.title == "Conflict ColinearEdges"; n[4] += x.title == "Conflict TooCloseMeshlinePolicies"; n[5] += starts(x.title, "Plane"); }
	size_t w[5] = {}; for(auto pl : AllPlane) { w[0] += h.b->get_polygons(pl).size(); w[2] += h.b->get_conflicts_edge_in_polygons(pl).size(); } w[1] = 3; for(auto a : AllAxis) { w[3] += h.b->get_conflicts_colinear_edges(a).size(); w[4] += h.b->get_conflicts_too_close_meshline_policies(a).size(); }
	sym_assert(n[0] == (p.with_geometric_part ? w[0] : 0), "polygons are shown exactly if asked for"); sym_assert(n[1] == (p.with_axis_part ? w[1] : 0), "axes are shown exactly if asked for");
	sym_assert(n[2] == (p.with_conflict_edge_in_polygon ? w[2] : 0), "conflicts of an edge are shown exactly if asked for"); sym_assert(n[3] == (p.with_axis_part && p.with_conflict_colinear_edges ? w[3] : 0), "conflicts of edges are shown exactly if asked for");
	sym_assert(n[4] == (p.with_axis_part && p.with_conflict_too_close_meshline_policies ? w[4] : 0), "conflicts of policies are shown exactly if asked for"); sym_assert(n[5] == 3, "planes are always shown");
}
SYM_CASE(listing, 0, "two or three boxes in any plane, 4 relations, horizontal edges hidden afterwards or not, at any place (|k| <= 1000; 3 places once meshed), after 0, 6, 9, 11 or 15 steps") {
	Bench h(stages[sym_pick("stage", 0, 4)]); Board& b = *h.b; S t = SerializerToPrettyprint::run(b);
	// without colours
	S u; for(size_t i = 0; i < t.size(); ++i) { if(t[i] == '\033') { while(t[i] != 'm') ++i; continue; } u += t[i]; }
	std::vector<S> ls; for(size_t i = 0, k = 0; i < u.size(); ++i) if(u[i] == '\n') { S l = u.substr(k, i - k); size_t f = l.find_first_not_of('\t'); if(f != S::npos) ls.push_back(l.substr(f)); k = i + 1; }
	size_t at = 0; auto next = [&]() -> S { return at < ls.size() ? ls[at++] : S("(end)"); };
	auto edge = [&](S l, Edge const& e, char const* what) { // { x, y } -> { x, y } axis direction normal O
		double v[4]; size_t p = 0; bool ok = true; for(int i = 0; i < 4; ++i) { p = l.find(i % 2 ? ", " : "{ ", p); if(p == S::npos) { ok = false; break; } p += 2; v[i] = number(l.substr(p, l.find_first_of(", }", p) - p)); }
		sym_assert(ok, "an edge is listed with its ends"); if(!ok) return;
		sym_assert((v[0] == e.p0().x.value()) & (v[1] == e.p0().y.value()) & (v[2] == e.p1().x.value()) & (v[3] == e.p1().y.value()), "the ends are those of the edge");
		S r = l.substr(l.rfind("} ") + 2); static char const* const ax[] = { "H", "V", "DIAGONAL", "POINT" };
		S w = S(e.axis == Segment::Axis::H ? ax[0] : e.axis == Segment::Axis::V ? ax[1] : e.axis == Segment::Axis::DIAGONAL ? ax[2] : ax[3]) + " " + (e.direction == Edge::Direction::XMIN ? "XMIN" : e.direction == Edge::Direction::XMAX ? "XMAX" : e.direction == Edge::Direction::YMIN ? "YMIN" : e.direction == Edge::Direction::YMAX ? "YMAX" : "NONE") + " " + name(e.normal) + " " + (e.get_current_state().to_mesh ? "O" : "X");
		sym_assert(r == w, what); };
	sym_assert(next() == "CONFLICT: EDGE IN POLYGONS", "conflicts of an edge come first");
	for(auto pl : AllPlane) for(auto& c : b.get_conflicts_edge_in_polygons(pl)) {
		sym_assert(next() == "Conflict EdgeInPolygon between:", "every conflict of an edge is listed"); sym_assert(next() == S("Plane: ") + planes[pl], "with its plane");
		S l = next(); sym_assert(starts(l, "Edge: "), "with its edge"); edge(l, *c->edge, "with the axis, direction, normal and use of its edge");
		for(auto& [p, r, e] : c->get_current_state().overlaps) { S l = next(); sym_assert(starts(l, ("Polygon: " + p->name + " ").c_str()) && l.back() == '{', "with its polygons"); for(auto& pe : p->edges) edge(next(), *pe, "with the edges of its polygons"); sym_assert(next() == "}", "and no other edges");
			if(e) { S l = next(); sym_assert(starts(l, "by edge: "), "with the edge over it"); edge(l, *e.value(), "as it is"); } S k = next(); sym_assert(starts(k, "on range: { "), "with the part in common");
			double v[4]; size_t q = 0; for(int i = 0; i < 4; ++i) { q = k.find(i % 2 ? ", " : "{ ", q); if(q == S::npos) break; q += 2; v[i] = number(k.substr(q, k.find_first_of(", }", q) - q)); }
			sym_assert(q != S::npos, "which has two ends"); if(q != S::npos) sym_assert((v[0] == r.p0().x.value()) & (v[1] == r.p0().y.value()) & (v[2] == r.p1().x.value()) & (v[3] == r.p1().y.value()), "which are those of the part"); }
		if(c->get_current_state().solution) sym_assert(next() == S("Solution: ") + (c->edge->get_current_state().to_mesh ? "to mesh" : "don't mesh"), "with what was decided"); }
	sym_assert(next() == "CONFLICT: COLINEAR EDGES", "conflicts of edges come next");
	for(auto a : AllAxis) for(auto& c : b.get_conflicts_colinear_edges(a)) {
		sym_assert(next() == "Conflict ColinearEdges between:", "every conflict of edges is listed"); sym_assert(next() == S("Axis: ") + axes[a], "with its axis");
		for(auto* e : c->get_current_state().edges) { S l = next(); sym_assert(starts(l, "Edge: "), "with its edges"); edge(l, *e, "with the axis, direction, normal and use of its edges"); }
		if(auto* s = dynamic_cast<MP*>(c->get_current_state().solution)) sym_assert(next() == "Solution: " + name(s->get_current_state().policy), "with the policy decided"); }
	sym_assert(next() == "CONFLICT: TOO CLOSE MESHLINE POLICIES", "conflicts of policies come last"); sym_assert(at == ls.size(), "nothing else is listed");
	sym_observe_int((int64_t) ls.size());
}
SYM_CASE(names, 0, "every value of every enumeration that has names") {
	using namespace std;
	Normal n = (Normal) sym_pick("n", 0, 6); sym_assert(to_string(n) == name(n), "normals have their names");
	int i = (int) sym_pick("i", 0, 2); sym_assert(to_string((Axis) i) == axes[i] && to_string((Plane) i) == planes[i], "axes and planes have their names");
	static MP::Policy const ps[] = { MP::Policy::ONELINE, MP::Policy::HALFS, MP::Policy::THIRDS }; static MP::Normal const ns[] = { MP::Normal::MIN, MP::Normal::MAX, MP::Normal::NONE };
	sym_assert(to_string(ps[i]) == name(ps[i]) && to_string(ns[i]) == name(ns[i]), "policies and their sides have their names");
	static Material::Type const ts[] = { Material::Type::PORT, Material::Type::CONDUCTOR, Material::Type::DIELECTRIC, Material::Type::AIR }; static char const* const tn[] = { "PORT", "CONDUCTOR", "DIELECTRIC", "AIR" };
	int k = (int) sym_pick("k", 0, 3); sym_assert(to_string(ts[k]) == tn[k], "materials have their names");
}
