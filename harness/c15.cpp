// C15: fixed mesh lines asked for by the user.
#include "mesh.hpp"
using namespace domain;

struct Line { int axis; int64_t c; };
static std::shared_ptr<Board> board(std::vector<Line> const& ls, Params p) { Board::Builder b; for(auto& l : ls) b.add_fixed_meshline_policy((Axis) l.axis, (double) l.c); return b.build(std::move(p)); }
static size_t count(Board& b, Line l, bool enabled) { size_t n = 0; for(auto& p : b.get_meshline_policies((Axis) l.axis)) n += (p->coord.value() == (double) l.c) & (!enabled || p->get_current_state().is_enabled); return n; }
static void all_there(Board& b, std::vector<Line> const& ls) {
	size_t distinct[3] = {};
	for(size_t i = 0; i < ls.size(); ++i) { bool first = true; for(size_t j = 0; j < i; ++j) if(ls[j].axis == ls[i].axis && ls[j].c == ls[i].c) first = false; distinct[ls[i].axis] += first; }
	for(auto& l : ls) sym_assert(count(b, l, true) == 1, "every line asked for is there once, enabled");
	for(auto a : AllAxis) { auto& ps = b.get_meshline_policies(a); sym_assert(ps.size() == distinct[a], "no other policy appears");
		for(auto& p : ps) sym_assert(p->get_current_state().policy == MP::Policy::ONELINE && p->get_current_state().normal == MP::Normal::NONE && p->axis == a, "a fixed line is a single line on its axis"); }
}
static std::vector<Line> lines(int n, int64_t r, int axes) { std::vector<Line> v; for(int i = 0; i < n; ++i) { std::string k = std::to_string(i); int a = (int) sym_pick(("axis" + k).c_str(), 0, axes); v.push_back({ a, sym_int(("c" + k).c_str(), -r, r) }); } return v; }
SYM_CASE(added, 0, "4 lines on any axis anywhere (|k| <= 10^6), added and travelled over") {
	auto ls = lines(4, 1000000, 2); auto b = board(ls, params(12, 2, 2)); auto& c = Caretaker::singleton();
	for(auto a : AllAxis) sym_assert(b->get_meshline_policies(a).empty(), "no policy before");
	c.remember_current_timepoint(); b->add_fixed_meshline_policies(); c.remember_current_timepoint();
	all_there(*b, ls);
	c.undo(); for(auto a : AllAxis) sym_assert(b->get_meshline_policies(a).empty(), "undoing removes the lines");
	c.redo(); all_there(*b, ls);
	c.undo(); b->add_fixed_meshline_policies(); all_there(*b, ls);
}
// Merging lines too close to each other is undone for fixed lines as well.
SYM_CASE(merged, 0, "3 lines on one axis anywhere (|k| <= 1000), merged when closer than 5, then undone") {
	auto ls = lines(3, 1000, 0); auto b = board(ls, params(12, 2, 2, 5)); auto& c = Caretaker::singleton();
	b->add_fixed_meshline_policies(); c.remember_current_timepoint();
	b->detect_and_solve_too_close_meshline_policies(); c.remember_current_timepoint();
	bool any = false; for(int i = 0; i < 3; ++i) for(int j = 0; j < i; ++j) { int64_t d = ls[i].c - ls[j].c; if(d && d <= 5 && d >= -5) any = true; }
	size_t n = b->get_meshline_policies(X).size();
	if(any) { sym_cover("merged"); c.undo(); all_there(*b, ls); c.redo(); sym_assert(b->get_meshline_policies(X).size() == n, "redoing merges again"); c.undo(); }
	all_there(*b, ls);
	if(any) { b->detect_and_solve_too_close_meshline_policies(); sym_assert(b->get_meshline_policies(X).size() == n, "merging again gives as many policies"); }
}
SYM_CASE(meshed, 0, "2 or 3 lines on an axis 8 to 40 apart, at any place: they are lines of the mesh") {
	int n = (int) sym_pick("n", 2, 3); std::vector<Line> ls; int64_t c0 = sym_int("c", -1000, 1000); ls.push_back({ 1, c0 });
	for(int i = 1; i < n; ++i) { int64_t g = sym_pick(("g" + std::to_string(i)).c_str(), 4, 20) * 2; ls.push_back({ 1, ls.back().c + g }); }
	std::swap(ls[0], ls[1]); auto b = board(ls, params(12, 2, 2, 5)); auto& c = Caretaker::singleton();
	b->add_fixed_meshline_policies(); c.remember_current_timepoint();
	for(int round = 0; round < 2; ++round) {
		b->detect_and_solve_too_close_meshline_policies(); b->detect_intervals(); b->mesh();
		for(auto& l : ls) { size_t m = 0; for(auto& x : b->line_policy_manager->get_meshlines(Y)) m += x->coord.value() == (double) l.c; sym_assert(m == 1, "every fixed line is in the mesh once"); }
		c.remember_current_timepoint(); c.undo(); all_there(*b, ls);
		for(auto& p : b->get_meshline_policies(Y)) sym_assert(p->get_current_state().d == 6, "undoing restores the distance of a fixed line");
	}
}
// Lines next to what polygons ask for.
SYM_CASE(beside_edges, 0, "a line anywhere (|k| <= 1000) on the axis of two sides of a box") {
	int64_t l = sym_int("l", -1000, 1000); Board::Builder bd; bd.add_polygon_from_box(XY, nullptr, "p", 1, { 0, 1 }, Point(0, 0), Point(100, 50)); bd.add_fixed_meshline_policy(X, (double) l);
	auto b = bd.build(params(12, 2, 2, 1)); b->detect_colinear_edges(); b->add_fixed_meshline_policies(); b->auto_solve_all_colinear_edges(); b->detect_individual_edges();
	auto& ps = b->get_meshline_policies(X); sym_assert(ps.size() == 3, "the line comes with those of the edges"); if(ps.size() != 3) return;
	b->detect_and_solve_too_close_meshline_policies();
	bool low = l >= -1 && l <= 1, high = l >= 99 && l <= 101; size_t on = 0, at = 0;
	for(auto& p : b->get_meshline_policies(X)) if(p->get_current_state().is_enabled) { ++on; if(p->coord.value() == (double) l && p->get_current_state().policy == MP::Policy::ONELINE) ++at; }
	sym_assert(at == 1, "the fixed line stays, at its place"); sym_assert(on == (low || high ? 2 : 3), "it replaces the edge next to it");
}
// Lines where policies of other kinds are: between sides that face each other, and at the angles of a triangle.
SYM_CASE(beside_others, 0, "a line anywhere (|k| <= 1000) on the axis of two boxes one above the other that touch the same line, or of a triangle whose angle is meshed or not, asked for once or twice") {
	int64_t l = sym_int("l", -1000, 1000); bool twice = sym_bool("twice"), before = sym_bool("before"); int kind = (int) sym_pick("kind", 0, 2); Board::Builder bd;
	if(kind == 0) { bd.add_polygon_from_box(XY, nullptr, "p", 1, { 0, 1 }, Point(0, 0), Point(100, 50)); bd.add_polygon_from_box(XY, nullptr, "q", 1, { 0, 1 }, Point(100, 60), Point(200, 90)); }
	else bd.add_polygon(XY, nullptr, "t", 1, { 0, 1 }, { Point(0, 0), Point(100, 50), Point(0, 50) });
	bd.add_fixed_meshline_policy(X, (double) l); if(twice) bd.add_fixed_meshline_policy(X, (double) l);
	auto b = bd.build(params(12, 2, 2, 1)); b->detect_diagonal_angles(); b->detect_colinear_edges(); b->auto_solve_all_colinear_edges();
	if(kind == 2) for(auto& a : b->get_angles(XY)) { auto s = a->get_current_state(); s.to_mesh[H] = true; a->set_next_state(s); }
	if(before) b->add_fixed_meshline_policies(); b->detect_individual_edges(); size_t rest = b->get_meshline_policies(X).size() - before; if(!before) b->add_fixed_meshline_policies();
	sym_assert(b->get_meshline_policies(X).size() == rest + 1, "the line comes with the others, once");
	size_t n = 0; for(auto& p : b->get_meshline_policies(X)) if(p->coord.value() == (double) l && p->get_current_state().is_enabled && p->get_current_state().policy == MP::Policy::ONELINE) ++n;
	sym_assert(n == 1, "the line is there, at its place, in use, whatever else is there");
}
