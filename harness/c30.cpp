// C30: everything on a board knows what it comes from and what comes of it, both ways.
#include "mesh.hpp"
#include "app/openemsh.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/geometrics/angle.hpp"
#include <algorithm>
#include <map>
#include <set>
using namespace domain;
namespace {
using Links = std::map<void const*, std::multiset<Conflict const*>>;
bool same(std::multiset<Conflict const*> const& want, std::vector<Conflict*> const& got) { return want == std::multiset<Conflict const*>(got.begin(), got.end()); }
void check(Board const& b) {
	Links edges, polygons, policies, intervals; std::set<void const*> known, lines; std::map<Conflict const*, IMeshLineOriginState const*> solving;
	std::map<Conflict const*, void const*> solutions; std::map<Edge const*, Conflict const*> hidden;
	for(auto pl : AllPlane) for(auto& q : b.get_polygons(pl)) { known.insert(q.get()); for(auto& e : q->edges) known.insert(e.get()); }
	for(auto pl : AllPlane) for(auto& c : b.get_conflicts_edge_in_polygons(pl)) {
		auto const& s = c->get_current_state(); edges[c->edge].insert(c.get()); std::set<Polygon const*> ps; for(auto& o : s.overlaps) { ps.insert(std::get<POLYGON>(o)); if(std::get<EDGE>(o)) sym_assert(known.count(*std::get<EDGE>(o)), "an overlap is with an edge of the board"); }
		for(auto* q : ps) polygons[q].insert(c.get());
		sym_assert(c->plane == pl && c->edge->plane == pl && known.count(c->edge), "a conflict is of an edge of its plane"); for(auto* q : ps) sym_assert(q->plane == pl && known.count(q), "a conflict is with polygons of its plane");
		sym_assert(s.is_solved == (s.solution != nullptr), "a conflict has a solution once solved");
		if(s.is_solved) { sym_assert(s.solution == static_cast<IConflictSolution const*>(c->edge), "a hidden edge is the solution of its conflict"); hidden[c->edge] = c.get(); }
	}
	std::map<void const*, std::vector<MeshlinePolicy const*>> from; // what policies say they come from
	for(auto a : AllAxis) for(auto& p : b.get_meshline_policies(a)) { known.insert(p.get()); sym_assert(p->axis == a, "policies are listed by their axis"); for(auto* o : p->get_current_state().origins) from[o].push_back(p.get()); sym_assert(p->get_current_state().origins.size() <= 1, "a policy has one origin, or none if fixed"); }
	auto origin = [&](IMeshLineOrigin const* o, MeshlinePolicy const* p) { auto i = from.find(o); size_t n = i == from.end() ? 0 : i->second.size(); sym_assert(n == (p ? 1 : 0) && (!p || i->second[0] == p), "a policy and what it comes from know each other, and it only"); if(i != from.end()) from.erase(i); };
	for(auto a : AllAxis) {
		for(auto& c : b.get_conflicts_colinear_edges(a)) { auto const& s = c->get_current_state(); for(auto* e : s.edges) { edges[e].insert(c.get()); sym_assert(known.count(e), "a conflict is of edges of the board"); }
			sym_assert(c->axis == a && s.edges.size() >= 2 && std::set<Edge*>(s.edges.begin(), s.edges.end()).size() == s.edges.size(), "a conflict of colinear edges has two at least, each once");
			sym_assert(s.solution == (s.meshline_policy ? static_cast<IConflictSolution*>(s.meshline_policy) : nullptr) && s.is_solved == (s.solution != nullptr), "the solution of colinear edges is their policy"); origin(c.get(), s.meshline_policy); }
		for(auto& c : b.get_conflicts_too_close_meshline_policies(a)) { auto const& s = c->get_current_state(); for(auto* p : c->meshline_policies) { policies[p].insert(c.get()); sym_assert(known.count(p) && p->axis == a, "a conflict is of policies of its axis"); }
			sym_assert(c->axis == a && s.solution == static_cast<IConflictSolution*>(s.meshline_policy) && s.meshline_policy && s.is_solved, "the solution of close policies is their policy"); origin(c.get(), s.meshline_policy); }
		for(auto& c : b.get_conflicts_diagonal_or_circular_zones(a)) { auto const& s = c->get_current_state(); sym_assert(c->axis == a && s.angles.size() >= 2, "a zone has two angles at least"); for(auto* i : s.intervals) intervals[i].insert(c.get()); }
	}
	for(auto pl : AllPlane) {
		for(auto& q : b.get_polygons(pl)) { sym_assert(same(polygons[q.get()], q->get_current_state().conflicts), "a polygon knows the conflicts it is part of, each once");
			for(auto& e : q->edges) { auto const& s = e->get_current_state(); sym_assert(same(edges[e.get()], s.conflicts), "an edge knows the conflicts it is part of, each once"); sym_assert(s.conflict == (hidden.count(e.get()) ? hidden[e.get()] : nullptr), "an edge knows the conflict it solves"); origin(e.get(), s.meshline_policy); } }
		for(auto& g : b.get_angles(pl)) { auto i = from.find(static_cast<IMeshLineOrigin*>(g.get())); auto* p = g->get_current_state().meshline_policy; sym_assert(known.count(g->e0) && known.count(g->e1) && g->plane == pl, "an angle is of edges of its plane");
			if(i == from.end()) sym_assert(!p, "an angle without policies knows of none"); else { sym_assert(i->second.size() == 2 && i->second[0]->axis != i->second[1]->axis && (i->second[0] == p || i->second[1] == p), "an angle has a policy on each axis and knows one"); from.erase(i); } }
	}
	sym_assert(from.empty(), "policies come from things of the board");
	for(auto a : AllAxis) {
		for(auto& p : b.get_meshline_policies(a)) { auto const& s = p->get_current_state(); sym_assert(same(policies[p.get()], s.conflicts), "a policy knows the conflicts it is part of, each once"); if(!s.conflicts.empty()) sym_assert(!s.is_enabled && s.conflicts.size() == 1, "a policy in a conflict is merged once and disabled"); }
		for(auto& i : b.get_intervals(a)) { auto const& s = i->get_current_state(); sym_assert(same(intervals[i.get()], s.conflicts), "an interval knows the zones it lies in, each once");
			for(auto* p : { s.before.meshline_policy, s.after.meshline_policy }) sym_assert(known.count(p) && p->axis == a && p->get_current_state().is_enabled, "an interval lies between policies in use of its axis"); known.insert(i.get()); }
		for(auto& m : b.get_meshlines(a)) { sym_assert(m->interval || m->policy, "a line comes from an interval or a policy"); if(m->interval) sym_assert(known.count(m->interval) && m->interval->axis == a, "a line comes from an interval of its axis");
			if(m->policy) sym_assert(known.count(m->policy) && m->policy->axis == a && m->policy->get_current_state().is_enabled, "a line comes from a policy in use of its axis"); 
			if(m->interval && m->policy) sym_assert(m->policy == m->interval->get_current_state().before.meshline_policy || m->policy == m->interval->get_current_state().after.meshline_policy, "a line of both is of a side of the interval"); }
	}
	for(auto& [i, c] : intervals) sym_assert(known.count(i), "a zone has intervals of the board");
}
// kinds: two boxes; three boxes; a box inside another and one across; a box and shapes with diagonals
app::OpenEMSH& open(Plane pl, int kind, bool meshed) {
	static app::OpenEMSH o({}); Caretaker::singleton().reset(); Board::Builder b; Params p = params(12, 2, 2, 3); p.diagonal_dmax = 6; int64_t x = kind == 3 ? 5 * sym_pick("x", -2, 18) : meshed ? 5 * sym_pick("x", -2, 14) : sym_int("x", -20, 80);
	auto m = std::make_shared<Material>(Material::Type::CONDUCTOR, "m"), d = std::make_shared<Material>(Material::Type::DIELECTRIC, "d");
	if(kind == 0) { b.add_polygon_from_box(pl, m, "a", 2, { 0, 1 }, dp({ 0, 0 }), dp({ 60, 30 })); b.add_polygon_from_box(pl, d, "b", 1, { 0, 1 }, dp({ x, 0 }), dp({ x + 20, 60 })); }
	if(kind == 1) { b.add_polygon_from_box(pl, m, "a", 2, { 0, 1 }, dp({ 0, 0 }), dp({ 60, 30 })); b.add_polygon_from_box(pl, d, "b", 2, { 0, 1 }, dp({ x, 0 }), dp({ x + 20, 30 })); b.add_polygon_from_box(pl, m, "c", 3, { 0, 1 }, dp({ 20, 30 }), dp({ 40, 60 })); }
	if(kind == 2) { b.add_polygon_from_box(pl, d, "a", 1, { 0, 1 }, dp({ 0, 0 }), dp({ 60, 60 })); b.add_polygon_from_box(pl, m, "b", 2, { 0, 1 }, dp({ x, 10 }), dp({ x + 20, 40 })); b.add_polygon_from_box(pl, m, "c", 2, { 0, 1 }, dp({ -10, 20 }), dp({ 70, 40 })); }
	if(kind == 3) { b.add_polygon(pl, d, "a", 1, { 0, 1 }, { dp({ 0, 0 }), dp({ 60, 0 }), dp({ 30, 50 }) }); b.add_polygon_from_box(pl, m, "b", 2, { 0, 1 }, dp({ x, 10 }), dp({ x + 20, 40 })); }
	b.add_fixed_meshline_policy(X, 61); b.add_fixed_meshline_policy(Y, (double) (x + 2)); b.add_fixed_meshline_policy(Z, 5);
	o.board = b.build(std::move(p)); Caretaker::singleton().remember_current_timepoint(); return o;
}
}
SYM_CASE(steps, 0, "4 kinds of boards in any plane, one box at any place (integers -20..80; with diagonals 21 places), after each of the first 11 steps") {
	Plane pl = (Plane) sym_pick("plane", 0, 2); int kind = (int) sym_pick("kind", 0, 3); auto& o = open(pl, kind, false);
	check(o.get_board()); for(int i = 0; i < 11; ++i) { o.run_next_step(); check(o.get_board()); }
}
SYM_CASE(mesh, 0, "4 kinds of boards, one box at 17 places (21 with diagonals), meshed") {
	int kind = (int) sym_pick("kind", 0, 3); auto& o = open(XY, kind, true);
	for(int i = 0; i < 11; ++i) o.run_next_step(); for(int i = 11; i < 15; ++i) { o.run_next_step(); check(o.get_board()); }
}
SYM_CASE(edited, 0, "4 kinds of boards, one box at any place, edges and angles of one polygon hidden or not before policies are made, along either axis") {
	int kind = (int) sym_pick("kind", 0, 3), f = (int) sym_pick("hidden", 1, 7); auto& o = open(XY, kind, false); auto& b = *o.board;
	o.run({ app::Step::ADJUST_EDGE_TO_MATERIAL, app::Step::DETECT_DIAG_ANGLES, app::Step::DETECT_DIAG_ZONES, app::Step::SOLVE_DIAG_ZONES_ANGLES }); size_t n = (size_t) sym_pick("polygon", 0, 1); auto* q = b.get_polygons(XY)[n].get();
	for(auto& e : q->edges) if(f & (e->axis == Segment::Axis::H ? 1 : 2)) { auto s = e->get_current_state(); s.to_mesh = false; e->set_next_state(s); }
	for(auto& g : b.get_angles(XY)) if(f != 4) { auto s = g->get_current_state(); s.to_mesh[H] = !(f & 1); s.to_mesh[V] = !(f & 2); g->set_next_state(s); }
	for(int i = 0; i < 7; ++i) { o.run_next_step(); check(b); }
}
static void travels(int moves) {
	int kind = (int) sym_pick("kind", 0, 3); auto& o = open(YZ, kind, false); auto& c = Caretaker::singleton();
	o.run({ app::Step::ADJUST_EDGE_TO_MATERIAL, app::Step::DETECT_DIAG_ANGLES, app::Step::DETECT_DIAG_ZONES, app::Step::SOLVE_DIAG_ZONES_ANGLES, app::Step::DETECT_CONFLICT_EIP, app::Step::DETECT_CONFLICT_CE });
	for(int k = 0; k < moves; ++k) { int op = (int) sym_pick(("op" + std::to_string(k)).c_str(), 0, 3);
		if(op == 0) { if(!o.can_run_a_next_step() || o.get_current_step() == app::Step::DETECT_AND_SOLVE_TCMLP) sym_stop(); o.run_next_step(); }
		else if(op == 1) { if(!c.can_undo()) sym_stop(); c.undo(); } else if(op == 2) { if(!c.can_redo()) sym_stop(); c.redo(); }
		else { o.go_before_previous_step(); }
		check(o.get_board()); }
}
SYM_CASE(travel, 0, "4 kinds of boards, one box at any place, 6 steps run, then any 3 moves of: next step, undo, redo, before the last step") { travels(3); }
SYM_CASE(travel_far, 1, "the same with 5 moves") { travels(5); }
