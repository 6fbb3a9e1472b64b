// C11: edges hidden by other polygons are not meshed, visible ones are.
#include "mesh.hpp"
using namespace domain;

struct Box { IP lo, hi; int prio; int64_t z0, z1; };
static bool z_meets(Box const& a, Box const& b) { return a.z0 <= b.z1 && b.z0 <= a.z1; }
static Box box(char const* n, int64_t r) {
	std::string k = n; Box b; b.lo = ip((k + "x0").c_str(), (k + "y0").c_str(), -r, r); b.hi = ip((k + "x1").c_str(), (k + "y1").c_str(), -r, r);
	sym_assume(b.lo.x < b.hi.x); sym_assume(b.lo.y < b.hi.y); b.prio = 1; b.z0 = 0; b.z1 = 1; return b;
}
static void add(Board::Builder& bd, Box const& b, Plane plane) { bd.add_polygon_from_box(plane, nullptr, "p", (size_t) b.prio, { (double) b.z0, (double) b.z1 }, dp(b.lo), dp(b.hi)); }
// How the side (left right bottom top = 0..3) of a relates to box b alone: does b hide all of it?
static bool hides(Box const& a, int side, Box const& b) {
	if(a.prio > b.prio || !z_meets(a, b)) return false;
	bool v = side < 2; int64_t c = side == 0 ? a.lo.x : side == 1 ? a.hi.x : side == 2 ? a.lo.y : a.hi.y;
	int64_t s = v ? a.lo.y : a.lo.x, e = v ? a.hi.y : a.hi.x, blo = v ? b.lo.x : b.lo.y, bhi = v ? b.hi.x : b.hi.y, bs = v ? b.lo.y : b.lo.x, be = v ? b.hi.y : b.hi.x;
	if(s < bs || e > be) return false;
	bool low = side == 0 || side == 2;
	return (c > blo && c < bhi) || (low ? c == bhi : c == blo);
}
static bool same_side(Box const& m, int side, Box const& o) { return side == 0 ? m.lo.x == o.lo.x : side == 1 ? m.hi.x == o.hi.x : side == 2 ? m.lo.y == o.lo.y : m.hi.y == o.hi.y; }
static bool within(Box const& m, int side, Box const& o) { return side < 2 ? m.lo.y >= o.lo.y && m.hi.y <= o.hi.y : m.lo.x >= o.lo.x && m.hi.x <= o.hi.x; }
static int side_of(Edge const& e, Box const& m) { return e.axis == Segment::Axis::V ? ((int64_t) e.p0().x.value() == m.hi.x) : 2 + ((int64_t) e.p0().y.value() == m.hi.y); }
static void two(Box a, Box b, Plane plane) {
	Board::Builder bd; add(bd, a, plane); add(bd, b, plane); auto board = bd.build();
	board->detect_edges_in_polygons(); board->auto_solve_all_edge_in_polygon();
	bool mesh[2][4];
	for(int p = 0; p < 2; ++p) for(auto& e : board->get_polygons(plane)[p]->edges) mesh[p][side_of(*e, p ? b : a)] = e->get_current_state().to_mesh;
	for(int p = 0; p < 2; ++p) for(int side = 0; side < 4; ++side) { Box const &m = p ? b : a, &o = p ? a : b;
		bool met = z_meets(m, o) && m.prio <= o.prio;
		if(met && same_side(m, side, o) && within(m, side, o)) { // the other edge shows the same boundary
			sym_assert(mesh[p][side] || mesh[1 - p][side], "a boundary drawn by two polygons is meshed");
			if(!within(o, side, m)) sym_assert(!mesh[p][side], "an edge that is part of a longer one is meshed as part of it"); // and of the same, either may show it
			continue;
		}
		sym_assert(mesh[p][side] == !hides(m, side, o), "an edge is meshed unless the other polygon hides it");
		if(!mesh[p][side]) sym_cover("hidden");
	}
}
SYM_CASE(equal, 0, "two boxes of equal priority anywhere (|k| <= 100)") { Box a = box("a", 100), b = box("b", 100); two(a, b, XY); }
SYM_CASE(priorities, 0, "two boxes of different priorities anywhere (|k| <= 100)") { Box a = box("a", 100), b = box("b", 100); bool p = sym_pick("above", 0, 1); a.prio = p ? 2 : 3; b.prio = p ? 3 : 2; two(a, b, (Plane) sym_pick("plane", 1, 2)); }
SYM_CASE(heights, 0, "two boxes of any heights, the second covering the first or not") {
	Box a { { 0, 0 }, { 10, 10 }, 1, 0, 0 }, b { { -5, -5 }, { 15, 15 }, 1, 0, 0 };
	a.z0 = sym_int("az0", -100, 100); a.z1 = sym_int("az1", -100, 100); b.z0 = sym_int("bz0", -100, 100); b.z1 = sym_int("bz1", -100, 100);
	Board::Builder bd; add(bd, a, XY); add(bd, b, XY); auto board = bd.build();
	board->detect_edges_in_polygons(); board->auto_solve_all_edge_in_polygon();
	int64_t al = imin(a.z0, a.z1), ah = imax(a.z0, a.z1), bl = imin(b.z0, b.z1), bh = imax(b.z0, b.z1); bool meet = al <= bh && bl <= ah;
	for(auto& e : board->get_polygons(XY)[0]->edges) sym_assert(e->get_current_state().to_mesh == !meet, "an edge is hidden by a polygon around it exactly when their heights meet");
	for(auto& e : board->get_polygons(XY)[1]->edges) sym_assert(e->get_current_state().to_mesh, "the outer edges stay visible");
}
// One edge and several polygons over parts of it: hidden exactly when they hide all of it together.
static void parts(bool vertical, bool backwards, int n, int64_t r) {
	IP p[4] = { { 0, 0 }, { 0, 50 }, { 20, 50 }, { 20, 0 } }; // edges 1 (left, up), 2 (top), 3 (right, down), 0 (bottom, to the left)
	Board::Builder bd;
	if(backwards) bd.add_polygon(XY, nullptr, "a", 1, { 0, 1 }, { dp(p[3]), dp(p[2]), dp(p[1]), dp(p[0]) });
	else bd.add_polygon(XY, nullptr, "a", 1, { 0, 1 }, { dp(p[0]), dp(p[1]), dp(p[2]), dp(p[3]) });
	int64_t len = vertical ? 50 : 20; std::vector<std::pair<int64_t, int64_t>> iv;
	for(int i = 0; i < n; ++i) {
		std::string k = std::to_string(i); int64_t s = n > 2 && i == 0 ? -5 : sym_int(("s" + k).c_str(), -r, len + r); int64_t e = sym_int(("e" + k).c_str(), -r, len + r); sym_assume(s < e);
		iv.push_back({ s, e });
		// straddles the left (vertical) or bottom (horizontal) edge only
		if(vertical) bd.add_polygon_from_box(XY, nullptr, "b", 1, { 0, 1 }, Point(-5 - i, (double) s), Point(5 + i, (double) e));
		else bd.add_polygon_from_box(XY, nullptr, "b", 1, { 0, 1 }, Point((double) s, -5 - i), Point((double) e, 5 + i));
	}
	auto board = bd.build(); board->detect_edges_in_polygons(); board->auto_solve_all_edge_in_polygon();
	// covered when every end of a part, and both ends of the edge, have cover just before and after them
	auto over = [&](int64_t a2, int64_t b2) { bool c = false; for(auto& v : iv) c = c | ((2 * v.first <= a2) & (b2 <= 2 * v.second)); return c; };
	bool all = true;
	std::vector<int64_t> ends { 0, len }; for(auto& v : iv) { ends.push_back(v.first); ends.push_back(v.second); }
	for(auto e : ends) { bool in_after = (e >= 0) & (e < len), in_before = (e > 0) & (e <= len); all = all & (!in_after | over(2 * e, 2 * e + 1)) & (!in_before | over(2 * e - 1, 2 * e)); }
	for(auto& e : board->get_polygons(XY)[0]->edges) {
		bool target = vertical ? e->axis == Segment::Axis::V && e->p0().x.value() == 0 : e->axis == Segment::Axis::H && e->p0().y.value() == 0;
		if(target) { if(all) sym_cover("hidden together"); sym_assert(e->get_current_state().to_mesh == !all, "an edge is hidden exactly when polygons hide all of it together"); }
	}
}
SYM_CASE(parts_h, 0, "a horizontal edge and 2 polygons over any parts of it, outline turning one way") { parts(false, false, 2, 10); }
SYM_CASE(parts_v, 0, "a vertical edge and 2 polygons over any parts of it, outline turning the other way") { parts(true, true, 2, 10); }
SYM_CASE(parts3, 1, "a horizontal edge and 3 polygons over any parts of it, one of them from its end, both rotations") { bool b = sym_pick("back", 0, 1); parts(false, b, 3, 3); }
SYM_CASE(mixed, 0, "a horizontal edge, a polygon sharing part of its side and one over part of it") {
	int64_t s = sym_int("s", -10, 30), e = sym_int("e", -10, 30), f = sym_int("f", -10, 30), l = sym_int("l", -10, 30); sym_assume(s < e); sym_assume(f < l);
	bool order = sym_pick("order", 0, 1), back = sym_pick("back", 0, 1);
	Board::Builder bd; if(back) bd.add_polygon(XY, nullptr, "a", 1, { 0, 1 }, { Point(0, 0), Point(20, 0), Point(20, 50), Point(0, 50) }); else bd.add_polygon_from_box(XY, nullptr, "a", 1, { 0, 1 }, Point(0, 0), Point(20, 50));
	for(int i = 0; i < 2; ++i) if((i == 0) == order) bd.add_polygon_from_box(XY, nullptr, "b", 1, { 0, 1 }, Point((double) s, 0), Point((double) e, 5));
	else bd.add_polygon_from_box(XY, nullptr, "c", 1, { 0, 1 }, Point((double) f, -5), Point((double) l, 6));
	auto board = bd.build(); board->detect_edges_in_polygons(); board->auto_solve_all_edge_in_polygon();
	bool hidden = f <= 0 && l >= 20;
	bool seen = false; for(auto& p : board->get_polygons(XY)) for(auto& x : p->edges) if(x->axis == Segment::Axis::H && x->p0().y.value() == 0) seen |= x->get_current_state().to_mesh;
	for(auto& x : board->get_polygons(XY)[0]->edges) if(x->axis == Segment::Axis::H && x->p0().y.value() == 0) {
		bool m = x->get_current_state().to_mesh;
		if(hidden) sym_assert(!m, "an edge hidden by a polygon around it stays hidden whatever else shares its side");
	}
	bool all = (f <= 0 && l >= 20) && (f <= s && l >= e);
	if(!all) sym_assert(seen, "a boundary that shows is meshed");
}
