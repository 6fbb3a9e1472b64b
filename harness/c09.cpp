// C09: diagonal edges: their angles, the zones they span, and the finer mesh there.
#include "mesh.hpp"
#include <algorithm>
using namespace domain;

using Shape = std::vector<IP>;
static Shape const triangle { { 0, 0 }, { 20, 0 }, { 0, 10 } }, rhombus { { 8, 0 }, { 16, 8 }, { 8, 16 }, { 0, 8 } }, chamfered { { 0, 0 }, { 20, 0 }, { 20, 12 }, { 14, 20 }, { 0, 20 } }, two_cuts { { 4, 0 }, { 30, 0 }, { 30, 8 }, { 20, 18 }, { 0, 18 }, { 0, 4 } }, plain { { 0, 0 }, { 12, 0 }, { 12, 12 }, { 0, 12 } };
static Shape const& shape(int k) { switch(k) { case 0: return triangle; case 1: return rhombus; case 2: return two_cuts; case 3: return plain; default: return chamfered; } }
static Shape turned(Shape s, bool swap, bool backwards) { for(auto& p : s) if(swap) std::swap(p.x, p.y); if(backwards) std::reverse(s.begin(), s.end()); return s; }
static Shape moved(Shape s, IP o) { for(auto& p : s) { p.x += o.x; p.y += o.y; } return s; }
static void add(Board::Builder& b, Plane plane, Shape const& s) { std::vector<std::unique_ptr<Point const>> v; for(auto& p : s) v.push_back(std::make_unique<Point const>((double) p.x, (double) p.y)); b.add_polygon(plane, nullptr, "p", 1, { 0, 1 }, std::move(v)); }
// Whether the step from vertex i to the next is diagonal is known from the shape alone.
static bool diag(Shape const& rel, size_t i) { IP a = rel[i], b = rel[(i + 1) % rel.size()]; return a.x != b.x && a.y != b.y; }
struct Span { int64_t lo, hi; };
// Union of the spans that can be walked to from span i.
static Span reach(std::vector<Span> const& v, size_t i) { Span r = v[i]; for(size_t n = 0; n < v.size(); ++n) for(auto& s : v) if(s.lo <= r.hi && s.hi >= r.lo) { r.lo = imin(r.lo, s.lo); r.hi = imax(r.hi, s.hi); } return r; }
static void zones_are(Board& b, Axis axis, std::vector<Span> const& v) {
	auto& zs = b.get_conflicts_diagonal_or_circular_zones(axis); size_t n = 0;
	for(size_t i = 0; i < v.size(); ++i) {
		Span r = reach(v, i); bool first = true; for(size_t j = 0; j < i; ++j) if(v[j].lo >= r.lo && v[j].hi <= r.hi) first = false;
		if(!first) continue; ++n;
		size_t found = 0; for(auto& z : zs) { auto bd = z->bounding(); found += (bd[XMIN].value() == (double) r.lo) & (bd[XMAX].value() == (double) r.hi); }
		sym_assert(found == 1, "every run of diagonals is one zone with exactly its extent");
	}
	sym_assert(zs.size() == n, "there are no other zones");
}
static void places(bool sw, int na, int nb) {
	int ka = (int) sym_pick("a", 0, na - 1), kb = (int) sym_pick("b", 0, nb - 1); bool swap = sw; bool back = sym_pick("back", 0, 1); auto plane = (Plane) sym_pick("plane", 0, 2);
	int64_t x = sym_int("x", -100, 100); int64_t y = sym_int("y", -100, 100);
	Shape ra = turned(shape(ka), swap, back), rb = turned(shape(kb), swap, back); Shape a = moved(ra, swap ? IP { 0, y } : IP { y, 0 }), b = moved(rb, swap ? IP { 100, x } : IP { x, 100 });
	Board::Builder bd; add(bd, plane, a); add(bd, plane, b); auto board = bd.build(params(12, 2, 2));
	board->detect_diagonal_angles(); board->detect_diagonal_zones();
	std::vector<Span> h, v; size_t n = 0; auto& angles = board->get_angles(plane);
	for(int s = 0; s < 2; ++s) { auto const &rel = s ? rb : ra, &abs = s ? b : a;
		for(size_t i = 0; i < rel.size(); ++i) { size_t j = (i + 1) % rel.size();
			if(diag(rel, i)) { h.push_back({ imin(abs[i].x, abs[j].x), imax(abs[i].x, abs[j].x) }); v.push_back({ imin(abs[i].y, abs[j].y), imax(abs[i].y, abs[j].y) }); }
			if(!diag(rel, i) && !diag(rel, j)) continue;
			++n; size_t found = 0; for(auto& g : angles) found += (g->p.x.value() == (double) abs[j].x) & (g->p.y.value() == (double) abs[j].y);
			sym_assert(found == 1, "every corner at a diagonal edge is an angle");
		} }
	sym_assert(angles.size() == n, "there are no other angles");
	static Axis const axes[][2] = { { Y, Z }, { Z, X }, { X, Y } };
	zones_are(*board, axes[plane][0], h); zones_are(*board, axes[plane][1], v);
	for(auto p : AllPlane) if(p != plane) sym_assert(board->get_angles(p).empty(), "other planes have no angles");
	if(h.size() > 2) sym_cover("several diagonals");
}
SYM_CASE(places_h, 0, "two outlines of 4 kinds with or without diagonals, apart vertically, anywhere horizontally (|k| <= 100), any plane and rotation") { places(false, 3, 4); }
SYM_CASE(places_v, 0, "the same with both directions exchanged") { places(true, 3, 4); }
// A diagonal crossed by the sides of a box.
SYM_CASE(crossed, 0, "the long side of a triangle and a box with one corner anywhere (|k| <= 40)") {
	int64_t px = sym_int("px", -40, 40), py = 0; py = sym_int("py", -40, 40); bool back = sym_pick("back", 0, 1);
	// long side: x + y == 40 from (40, 0) to (0, 40); box up and right of p
	sym_assume(px != 0); sym_assume(py != 0); sym_assume(px != 40); sym_assume(py != 40); sym_assume(px + py != 40);
	Shape t { { 0, 0 }, { 40, 0 }, { 0, 40 } }; Board::Builder bd; add(bd, XY, turned(t, false, back)); add(bd, XY, { { px, py }, { px + 90, py }, { px + 90, py + 90 }, { px, py + 90 } });
	auto board = bd.build(params(12, 2, 2)); board->detect_diagonal_angles();
	auto& angles = board->get_angles(XY); size_t n = 2;
	if(px > 0 && px < 40 && py < 40 - px) { ++n; size_t f = 0; for(auto& g : angles) f += near(g->p.x.value(), (double) px) & near(g->p.y.value(), (double) (40 - px)); sym_assert(f == 1, "an edge that crosses a diagonal makes an angle there"); sym_cover("crossing"); }
	if(py > 0 && py < 40 && px < 40 - py) { ++n; size_t f = 0; for(auto& g : angles) f += near(g->p.x.value(), (double) (40 - py)) & near(g->p.y.value(), (double) py); sym_assert(f == 1, "an edge that crosses a diagonal makes an angle there"); }
	sym_assert(angles.size() == n, "there are no other angles");
}
SYM_CASE(crossing_diagonals, 0, "the long side of a triangle and a rhombus anywhere (|k| <= 40) that share no corner or side") {
	int64_t x = sym_int("x", -40, 40); int64_t y = sym_pick("y", -3, 7) * 5;
	Shape r { { 10, 0 }, { 20, 10 }, { 10, 20 }, { 0, 10 } };
	for(auto& p : r) sym_assume(p.x + x + p.y + y != 40);
	Board::Builder bd; add(bd, XY, { { 0, 0 }, { 40, 0 }, { 0, 40 } }); add(bd, XY, moved(r, { x, y }));
	auto board = bd.build(params(12, 2, 2)); board->detect_diagonal_angles(); auto& angles = board->get_angles(XY);
	size_t n = 0;
	for(int i = 0; i < 4; ++i) { // sides of slope 1 cross the long side where x + y == 40
		IP a { r[i].x + x, r[i].y + y }, b { r[(i + 1) % 4].x + x, r[(i + 1) % 4].y + y }; bool up = (b.x - a.x) == (b.y - a.y); if(!up) continue;
		bool apart = imin(a.x + a.y, b.x + b.y) > 40 || imax(a.x + a.y, b.x + b.y) < 40; if(apart) continue;
		int64_t dx2 = 40 - (a.x + a.y); int64_t cx2 = 2 * a.x + dx2, cy2 = 2 * a.y + dx2; // twice the point
		sym_assume(cx2 != 0); sym_assume(cx2 != 80); if(cx2 < 0 || cx2 > 80) continue;
		++n; size_t f = 0; for(auto& g : angles) f += near(g->p.x.value() * 2, (double) cx2) & near(g->p.y.value() * 2, (double) cy2);
		sym_assert(f >= 1, "diagonals that cross make an angle there"); sym_cover("crossing");
	}
	// sides of the triangle along the axes cross the rhombus too
	size_t m = 0; for(auto& g : angles) m += !near(g->p.x.value(), 0) & !near(g->p.y.value(), 0);
	size_t corners = 0; for(auto& p : r) corners += (p.x + x != 0) & (p.y + y != 0);
	sym_assert(m == n + corners, "there are no other angles");
}
static bool enabled_at(Board& b, Axis axis, double c) { bool on = false; for(auto& p : b.get_meshline_policies(axis)) on = on | ((p->coord.value() == c) & p->get_current_state().is_enabled); return on; }
// Corners: x0 start, turns of 45, 90, 45 degrees in between along x, then back; angles are given by the outline alone.
SYM_CASE(angles, 0, "a mountain outline with turns of 18.4, 26.6, 45 and 90 degrees anywhere (|k| <= 1000), any minimal angle above, below or between them") {
	int64_t x = sym_int("x", -1000, 1000); int64_t y = sym_int("y", -1000, 1000); double min = sym_grid("min", 0, 90, 1) + 0.5; bool back = sym_pick("back", 0, 1);
	// degrees turned where two sides meet, from their slopes
	Shape s { { 0, 0 }, { 10, 10 }, { 20, 15 }, { 30, 15 }, { 40, 5 }, { 50, 15 }, { 80, 20 }, { 80, -10 } };
	double turn[] = { 0, 18.434948822922, 26.565051177078, 45, 90, 35.537677791974, 0, 0 };
	for(size_t i = 1; i < 6; ++i) { double d = min - turn[i]; sym_assume(d > 0.001 || d < -0.001); }
	Board::Builder bd; add(bd, XY, turned(moved(s, { x, y }), false, back)); Params p = params(12, 2, 2); p.consecutive_diagonal_minimal_angle = min; auto b = bd.build(std::move(p));
	b->detect_diagonal_angles(); b->detect_diagonal_zones(); b->solve_diagonal_zones_angles(); b->detect_individual_edges();
	for(size_t i = 1; i < 6; ++i) { double c = (double) (s[i].x + x); sym_assert(enabled_at(*b, X, c) == (turn[i] >= min), "a corner within a zone asks for mesh lines exactly when it turns at least the minimal angle"); if(turn[i] >= min) sym_cover("sharp"); else sym_cover("blunt"); }
	sym_assert(enabled_at(*b, X, (double) x) && enabled_at(*b, X, (double) (80 + x)), "the ends of a zone always ask for mesh lines");
	size_t n = 0; for(auto& q : b->get_meshline_policies(X)) { bool edge = q->get_current_state().policy == MP::Policy::THIRDS; n += !edge; if(!edge) sym_assert(q->get_current_state().policy == MP::Policy::HALFS && q->get_current_state().normal == MP::Normal::NONE, "corners of diagonals ask for halves"); }
	sym_assert(n == b->get_angles(XY).size(), "every corner at a diagonal edge has its policy on the axis");
}
// The finer mesh where diagonals are.
static void finer(int shape_max, bool swap) {
	int k = (int) sym_pick("shape", 0, shape_max); if(k == 3) k = 4; int64_t o = sym_pick("offset", -3, 5) * 12; int64_t x = sym_int("x", -1000, 1000);
	Shape rel = turned(shape(k), swap, false), s = moved(rel, { x, x }); Shape box = moved(plain, swap ? IP { x + 100, x + o } : IP { x + o, x + 100 });
	Board::Builder bd; add(bd, XY, s); add(bd, XY, box); Params p = params(12, 2, 2, 1); p.diagonal_dmax = 4; auto b = bd.build(std::move(p)); Axis axis = swap ? Y : X; auto& c = Caretaker::singleton();
	b->detect_diagonal_angles(); b->detect_diagonal_zones(); b->solve_diagonal_zones_angles(); b->detect_colinear_edges(); b->auto_solve_all_colinear_edges(); b->detect_individual_edges();
	c.remember_current_timepoint(); size_t lines = 0;
	for(int round = 0; round < 2; ++round) {
		b->detect_and_solve_too_close_meshline_policies(); b->detect_intervals(); b->detect_intervals_per_diagonal_zones(); b->solve_diagonal_zones_intervals();
		std::vector<Span> v; for(size_t i = 0; i < rel.size(); ++i) if(diag(rel, i)) { size_t j = (i + 1) % rel.size(); auto at = [&](size_t q) { return swap ? s[q].y : s[q].x; }; v.push_back({ imin(at(i), at(j)), imax(at(i), at(j)) }); }
		auto in_zone = [&](double m) { bool in = false; for(size_t i = 0; i < v.size(); ++i) { Span r = reach(v, i); in = in | ((m >= (double) r.lo) & (m <= (double) r.hi)); } return in; };
		for(auto& i : b->get_intervals(axis)) sym_assert(i->get_current_state().dmax == (in_zone(i->m.value()) ? 4 : 12), "intervals within a zone of diagonals get the finer limit, others keep the general one");
		b->line_policy_manager->mesh(axis);
		auto& ms = b->line_policy_manager->get_meshlines(axis); bool fine = true;
		for(size_t i = 1; i < ms.size(); ++i) { double w = ms[i]->coord.value() - ms[i - 1]->coord.value(); fine = fine & (w > 0) & at_most(w, 12); }
		for(auto& i : b->get_intervals(axis)) if(in_zone(i->m.value())) { double lo = i->get_current_state().before.meshline_policy->coord.value(), hi = i->get_current_state().after.meshline_policy->coord.value();
			for(size_t q = 1; q < ms.size(); ++q) { double l = ms[q - 1]->coord.value(), r = ms[q]->coord.value(); if(l > lo && r < hi) fine = fine & at_most(r - l, 4); } sym_cover("finer"); }
		sym_assert(fine, "lines in a zone of diagonals are no farther apart than its limit, lines elsewhere than the general one");
		if(round) sym_assert(ms.size() == lines, "after undoing, the same steps give the same mesh"); lines = ms.size();
		size_t links = 0; for(auto& z : b->get_conflicts_diagonal_or_circular_zones(axis)) links += z->get_current_state().intervals.size();
		size_t want = 0; for(auto& i : b->get_intervals(axis)) want += in_zone(i->m.value());
		sym_assert(links == want, "a zone knows exactly the current intervals within it");
		c.remember_current_timepoint(); c.undo();
	}
	for(auto& z : b->get_conflicts_diagonal_or_circular_zones(axis)) sym_assert(z->get_current_state().intervals.empty(), "undoing makes zones forget their intervals");
}
SYM_CASE(finer_h, 0, "outlines with diagonals and a box beside at 9 offsets, anywhere (|k| <= 1000), two rounds with undo") { finer(3, false); }
SYM_CASE(finer_v, 0, "the same with both directions exchanged") { finer(3, true); }
// What the angles decided is undone too.
SYM_CASE(undone, 0, "zones of one outline anywhere (|k| <= 1000), solved then undone, any minimal angle") {
	int64_t x = sym_int("x", -1000, 1000); double min = sym_grid("min", 0, 90, 1) + 0.5; auto& c = Caretaker::singleton();
	Board::Builder bd; add(bd, YZ, moved(two_cuts, { x, 0 })); Params p = params(12, 2, 2); p.consecutive_diagonal_minimal_angle = min; auto b = bd.build(std::move(p));
	b->detect_diagonal_angles(); b->detect_diagonal_zones(); c.remember_current_timepoint(); b->solve_diagonal_zones_angles(); c.remember_current_timepoint();
	bool any = false; for(auto& g : b->get_angles(YZ)) any |= g->get_current_state().to_mesh[H] | g->get_current_state().to_mesh[V]; sym_assert(any, "some corner asks for mesh lines");
	c.undo(); for(auto& g : b->get_angles(YZ)) sym_assert(!g->get_current_state().to_mesh[H] && !g->get_current_state().to_mesh[V], "undoing makes corners ask for nothing again");
	c.undo(); sym_assert(b->get_angles(YZ).empty() && b->get_conflicts_diagonal_or_circular_zones(Y).empty(), "undoing further drops angles and zones");
	c.redo(2); bool again = false; for(auto& g : b->get_angles(YZ)) again |= g->get_current_state().to_mesh[H] | g->get_current_state().to_mesh[V]; sym_assert(again, "redoing brings it back");
}
