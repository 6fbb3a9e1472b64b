// C12: edges face the material that ranks higher.
#include "mesh.hpp"
using namespace domain;

static std::shared_ptr<Material> mat(int k) { return std::make_shared<Material>((Material::Type) k, "m"); }
// kinds in enum order: 0 port, 1 conductor, 2 dielectric, 3 air; smaller ranks higher
struct Poly { IP lo, hi; int kind; int prio; int64_t z0, z1; };
// Material met by a side of a box moved right outside of it: the highest priority, then the highest ranking, among polygons whose box meets it.
enum Side { LEFT, RIGHT, BOTTOM, TOP };
static int ambient(std::vector<Poly> const& ps, size_t self, Side s, int background) {
	int best = background, prio = -1; auto const& q = ps[self];
	for(size_t i = 0; i < ps.size(); ++i) {
		auto const& p = ps[i]; if(i == self) continue;
		bool met = (p.z0 <= q.z1) & (p.z1 >= q.z0);
		if(s == LEFT || s == RIGHT) met &= (p.lo.y <= q.hi.y) & (p.hi.y >= q.lo.y); else met &= (p.lo.x <= q.hi.x) & (p.hi.x >= q.lo.x);
		switch(s) { // the sides lie on a grid: a little outside is strictly between two grid points
		case LEFT: met &= (p.lo.x < q.lo.x) & (p.hi.x >= q.lo.x); break;
		case RIGHT: met &= (p.lo.x <= q.hi.x) & (p.hi.x > q.hi.x); break;
		case BOTTOM: met &= (p.lo.y < q.lo.y) & (p.hi.y >= q.lo.y); break;
		case TOP: met &= (p.lo.y <= q.hi.y) & (p.hi.y > q.hi.y); break;
		}
		if(met && (p.prio > prio || (p.prio == prio && p.kind < best))) { best = p.kind; prio = p.prio; }
	}
	return best;
}
static void check(std::vector<Poly> const& ps, int background, Plane plane) {
	Board::Builder bd; if(background >= 0) bd.set_background_material(mat(background));
	for(auto& p : ps) bd.add_polygon_from_box(plane, mat(p.kind), "p", (size_t) p.prio, { (double) p.z0, (double) p.z1 }, dp(p.lo), dp(p.hi));
	auto board = bd.build(); board->adjust_edges_to_materials();
	for(size_t i = 0; i < ps.size(); ++i) for(auto& e : board->get_polygons(plane)[i]->edges) {
		auto const& p = ps[i]; bool v = e->axis == Segment::Axis::V;
		bool hi = v ? e->p0().x.value() == (double) p.hi.x : e->p0().y.value() == (double) p.hi.y;
		int out = ambient(ps, i, v ? (hi ? RIGHT : LEFT) : (hi ? TOP : BOTTOM), background < 0 ? 99 : background);
		sym_assert(e->get_current_state().to_reverse == (out < p.kind), "an edge is reversed exactly when the material right outside ranks above the polygon's");
		sym_assert(e->get_current_state().to_mesh, "adjusting edges hides none");
		if(out < p.kind) sym_cover("reversed");
	}
	for(auto pl : AllPlane) if(pl != plane) sym_assert(board->get_polygons(pl).empty(), "other planes stay empty");
}
SYM_CASE(kinds, 0, "a box within another, any materials, priorities 0..2 and background") {
	Poly a { { 2, 2 }, { 5, 5 }, 0, 1, 0, 3 }, b { { 0, 0 }, { 9, 9 }, 0, 1, 2, 4 };
	a.kind = (int) sym_pick("ka", 0, 3); b.kind = (int) sym_pick("kb", 0, 3); b.prio = (int) sym_pick("pb", 0, 2); int bg = (int) sym_pick("bg", -1, 3);
	check({ a, b }, bg, (Plane) sym_pick("plane", 0, 2));
}
static void other(std::vector<Poly> ps, int64_t n) { // the second box: one extent anywhere, the other in one of the typical positions
	static int64_t const at[][2] = { { 2, 8 }, { -5, -1 }, { -5, 0 }, { -5, 15 }, { 10, 15 }, { 0, 10 }, { 11, 15 }, { 5, 15 } };
	int64_t l = sym_int("b0", -100, 100); int64_t h = sym_int("b1", -100, 100); sym_assume(l < h); int64_t i = sym_pick("position", 0, n - 1);
	auto& b = ps[1];
	if(sym_pick("which", 0, 1)) { b.lo = { l, at[i][0] }; b.hi = { h, at[i][1] }; } else { b.lo = { at[i][0], l }; b.hi = { at[i][1], h }; }
	check(ps, 3, XY);
}
SYM_CASE(places, 0, "a dielectric box and a conductor box, anywhere on one axis (|k| <= 100), in 8 typical positions on the other") { other({ { { 0, 0 }, { 10, 10 }, 2, 1, 0, 1 }, { { 0, 0 }, { 1, 1 }, 1, 1, 0, 1 } }, 8); }
SYM_CASE(heights, 0, "a dielectric box within a conductor box at any heights (|k| <= 100)") {
	Poly a { { 2, 2 }, { 5, 5 }, 2, 1, 0, 0 }, b { { 0, 0 }, { 9, 9 }, 1, 1, 0, 0 };
	a.z0 = sym_int("az0", -100, 100); a.z1 = sym_int("az1", -100, 100); b.z0 = sym_int("bz0", -100, 100); b.z1 = sym_int("bz1", -100, 100); sym_assume(a.z0 <= a.z1); sym_assume(b.z0 <= b.z1);
	check({ a, b }, 3, XY);
}
static void prios(int64_t n) {
	Poly a { { 2, 2 }, { 5, 5 }, 2, 1, 0, 1 }, b { { 0, 0 }, { 0, 9 }, 0, 0, 0, 1 }, c { { 0, 0 }, { 9, 9 }, 0, 0, 0, 1 };
	static int64_t const at[][2] = { { 0, 9 }, { 0, 3 }, { 3, 9 }, { 5, 9 } }; int64_t w = sym_pick("place", 0, n - 1); b.lo.x = at[w][0]; b.hi.x = at[w][1];
	b.kind = (int) sym_pick("kb", 0, 3); c.kind = (int) sym_pick("kc", 0, 3); b.prio = (int) sym_pick("pb", 0, 2); c.prio = (int) sym_pick("pc", 0, 2);
	if(sym_pick("first", 0, 1)) check({ b, a, c }, 3, XY); else check({ a, b, c }, 3, XY);
}
SYM_CASE(priorities, 0, "a dielectric box under two others of any materials and priorities up to 2, in either order, at 4 places") { prios(4); }
SYM_CASE(priority_values, 0, "a box within two others of any priorities (0..10^9)") {
	Poly a { { 2, 2 }, { 5, 5 }, 2, 0, 0, 1 }, b { { 0, 0 }, { 9, 9 }, 1, 0, 0, 1 }, c { { 0, 0 }, { 9, 9 }, 3, 0, 0, 1 };
	b.prio = (int) sym_int("pb", 0, 1000000000); c.prio = (int) sym_int("pc", 0, 1000000000); a.prio = 5;
	check({ a, b, c }, 3, XY);
}
