// C23: from geometry to mesh: what comes out depends on the geometry alone.
#include "mesh.hpp"
#include "app/openemsh.hpp"
#include <algorithm>
using namespace domain;
using app::OpenEMSH; using app::Step;

struct Box { IP lo, hi; int kind; int prio; int64_t z0, z1; };
struct Line { int axis; double c; };
struct Pol { double c; int p, n; };
struct Out { std::vector<Pol> pol[3]; std::vector<double> mesh[3]; };
// the axes of a plane, in view order, then the axis across
static int view(Plane p, int k) { static int const v[3][3] = { { 1, 2, 0 }, { 2, 0, 1 }, { 0, 1, 2 } }; return v[p][k]; }
static std::shared_ptr<Material> mat(int k) { static char const* const n[] = { "port", "metal", "dielectric", "air" }; return std::make_shared<Material>((Material::Type) k, n[k]); }
static constexpr int SAME = 0, ORDER = 1, CORNERS = 2, FIRST = 3, LINES = 4, HEIGHTS = 5, N_HOW = 6;
static char const* const WHAT[] = { "", "does not depend on the order of the polygons", "does not depend on the rotation of outlines", "does not depend on the first vertex of outlines", "does not depend on the order of the fixed lines", "does not depend on the order of the bounds of heights" };
static Out process(std::vector<Box> bs, std::vector<Line> ls, Params const& p, Plane plane, int how, bool all, double shift = 0) {
	Caretaker::singleton().reset(); Board::Builder bd; bd.set_background_material(mat(3));
	if(how == ORDER) std::reverse(bs.begin(), bs.end());
	if(how == LINES) std::reverse(ls.begin(), ls.end());
	for(auto& b : bs) {
		Polygon::RangeZ z(how == HEIGHTS ? (double) b.z1 : (double) b.z0, how == HEIGHTS ? (double) b.z0 : (double) b.z1);
		auto at = [&](int64_t x, int64_t y) { return Point((double) x + shift, (double) y); };
		if(how == CORNERS) bd.add_polygon(plane, mat(b.kind), "b", (size_t) b.prio, z, { at(b.lo.x, b.lo.y), at(b.hi.x, b.lo.y), at(b.hi.x, b.hi.y), at(b.lo.x, b.hi.y) });
		else if(how == FIRST) bd.add_polygon(plane, mat(b.kind), "b", (size_t) b.prio, z, { at(b.hi.x, b.hi.y), at(b.hi.x, b.lo.y), at(b.lo.x, b.lo.y), at(b.lo.x, b.hi.y) });
		else bd.add_polygon_from_box(plane, mat(b.kind), "b", (size_t) b.prio, z, at(b.lo.x, b.lo.y), at(b.hi.x, b.hi.y));
	}
	for(auto& l : ls) bd.add_fixed_meshline_policy((Axis) l.axis, l.axis == view(plane, 0) ? l.c + shift : l.c);
	OpenEMSH o({}); o.board = bd.build(Params(p));
	if(all) o.run_all_steps();
	else o.run({ Step::ADJUST_EDGE_TO_MATERIAL, Step::DETECT_DIAG_ANGLES, Step::DETECT_DIAG_ZONES, Step::SOLVE_DIAG_ZONES_ANGLES, Step::DETECT_CONFLICT_EIP, Step::DETECT_CONFLICT_CE, Step::ADD_FIXED_MLP, Step::SOLVE_ALL_EIP, Step::SOLVE_ALL_CE, Step::DETECT_INDIVIDUAL_EDGES, Step::DETECT_AND_SOLVE_TCMLP });
	Out r;
	for(auto a : AllAxis) {
		for(auto& q : o.board->get_meshline_policies(a)) { auto const& s = q->get_current_state(); if(s.is_enabled) r.pol[a].push_back({ q->coord.value(), (int) s.policy, (int) s.normal }); }
		std::sort(r.pol[a].begin(), r.pol[a].end(), [](auto& x, auto& y) { return x.c < y.c; });
		for(auto& l : o.board->get_meshlines(a)) r.mesh[a].push_back(l->coord.value());
	}
	return r;
}
static void same(Out const& a, Plane pa, Out const& b, Plane pb, char const* what, double moved = 0) {
	for(int k = 0; k < 3; ++k) {
		double shift = k == 0 ? moved : 0;
		auto &x = a.pol[view(pa, k)], &y = b.pol[view(pb, k)]; auto &m = a.mesh[view(pa, k)], &n = b.mesh[view(pb, k)];
		bool ok = x.size() == y.size() && m.size() == n.size();
		if(ok) { for(size_t i = 0; i < x.size(); ++i) ok = ok & near(x[i].c + shift, y[i].c) & (x[i].p == y[i].p) & (x[i].n == y[i].n); for(size_t i = 0; i < m.size(); ++i) ok = ok & near(m[i] + shift, n[i]); }
		sym_assert(ok, what);
	}
}
static void sound(Out const& o, Params const& p, std::vector<Line> const& ls, bool all) {
	for(int a = 0; a < 3; ++a) {
		auto &x = o.pol[a]; auto &m = o.mesh[a];
		for(size_t i = 1; i < x.size(); ++i) sym_assert(x[i].c - x[i - 1].c > p.proximity_limit, "no two policies in use are within the proximity limit");
		for(auto& l : ls) if(l.axis == a) { // alone: no other fixed line within the limit
			bool alone = true; for(auto& k : ls) if(k.axis == a && k.c != l.c) alone = alone & !at_most(k.c > l.c ? k.c - l.c : l.c - k.c, 2 * p.proximity_limit + 1);
			size_t n = 0; for(auto& q : x) n += (q.c == l.c) & (q.p == (int) MP::Policy::ONELINE);
			if(alone) sym_assert(n == 1, "a fixed line away from other fixed lines gets a line policy at its place");
			if(!all || !alone) continue;
			size_t c = 0; for(double v : m) c += v == l.c; sym_assert(c == 1, "a fixed line away from other fixed lines is in the mesh once");
		}
		if(!all) continue;
		for(size_t i = 1; i < m.size(); ++i) sym_assert((m[i - 1] < m[i]) & at_most(m[i] - m[i - 1], p.dmax), "mesh lines are ordered, distinct, and at most dmax apart");
		if(x.size() < 2) continue;
		sym_assert(!m.empty() && at_most(x.front().c, m.front()) && at_most(m.back(), x.back().c), "the mesh stays within the policies at its ends");
		if(!m.empty()) sym_assert(at_most(m.front() - x.front().c, p.dmax) && at_most(x.back().c - m.back(), p.dmax), "the mesh reaches the policies at its ends");
	}
}
// Policies: everything symbolic on one axis.
static void policies(std::vector<Box> const& bs, std::vector<Line> const& ls, Plane plane, int how, Plane other) {
	Params p = params(12, 2, 2, 1);
	auto a = process(bs, ls, p, plane, SAME, false); sound(a, p, ls, false);
	if(how == N_HOW) { // the same in another plane; fixed lines go along
		std::vector<Line> moved; for(auto& l : ls) for(int k = 0; k < 3; ++k) if(view(plane, k) == l.axis) moved.push_back({ view(other, k), l.c });
		same(a, plane, process(bs, moved, p, other, SAME, false), other, "what is meshed does not depend on the plane"); return;
	}
	same(a, plane, process(bs, ls, p, plane, how, false), plane, WHAT[how]);
}
static int64_t const ROWS[][2] = { { 10, 20 }, { 0, 30 }, { -10, 15 }, { 30, 50 }, { -20, 50 }, { 40, 60 } };
static void two(int64_t r, int kinds, bool z, int rows, int lines) {
	Box a { { 0, 0 }, { 60, 30 }, 1, 1, 0, 1 }, b { { 0, 0 }, { 0, 0 }, 1, 1, 0, 1 };
	int row = (int) sym_pick("row", 0, rows - 1), how = (int) sym_pick("how", 1, N_HOW), k = kinds ? (int) sym_pick("kind", 0, kinds - 1) : row;
	static int const ks[][3] = { { 1, 1, 1 }, { 2, 1, 1 }, { 2, 1, 2 }, { 1, 2, 2 } }; a.kind = ks[k][0]; b.kind = ks[k][1]; b.prio = ks[k][2];
	b.lo = { sym_int("x0", -r, 60 + r), ROWS[row][0] }; b.hi = { sym_int("x1", -r, 60 + r), ROWS[row][1] }; sym_assume(b.lo.x < b.hi.x);
	if(z) { b.z0 = 1; b.z1 = 2; }
	std::vector<Line> ls { { 0, 30 } }; if(lines > 1) ls.push_back({ 0, 20 }); policies({ a, b }, ls, XY, how, sym_pick("plane", 0, 1) ? ZX : YZ);
}
SYM_CASE(two_boxes, 2, "two boxes, one anywhere along x (|k| <= 20 around the other) in 2 rows with a mix of materials each, a fixed line: policies compared over orders, rotations, first vertices, planes") { two(20, 0, false, 2, 1); }
SYM_CASE(two_boxes_mixed, 1, "two boxes, one anywhere along x (|k| <= 20 around the other) in 4 rows, 2 mixes of materials and priorities, a fixed line") { two(20, 2, false, 4, 1); }
SYM_CASE(two_boxes_wide, 1, "two boxes, one anywhere along x (|k| <= 1000 around the other) in 6 rows, 4 mixes of materials and priorities, heights touching, 2 fixed lines") { two(1000, 4, true, 6, 2); }
SYM_CASE(lines, 0, "a box and 3 fixed lines anywhere on one axis (|k| <= 200): orders and planes") {
	std::vector<Line> ls; for(int i = 0; i < 3; ++i) ls.push_back({ 0, sym_grid(("l" + std::to_string(i)).c_str(), -200, 200, -1) });
	int how = sym_pick("how", 0, 1) ? LINES : N_HOW; policies({ { { 0, 0 }, { 60, 30 }, 1, 1, 0, 1 } }, ls, XY, how, YZ);
}
// Meshes: sizes from a list, everything at any place.
static void mesh(int how, Plane plane, Plane other, int cols = 6, int rows = 6) {
	Params p = params(12, 2, 2, 1);
	static int64_t const at[][2] = { { 70, 100 }, { 60, 90 }, { 30, 90 }, { 10, 40 }, { -30, 0 }, { -30, 61 } };
	int col = (int) sym_pick("col", 0, cols - 1), row = (int) sym_pick("row", 0, rows - 1), k = (int) sym_pick("kind", 0, 1); double s = sym_grid("shift", -1000, 1000, 0) * 3;
	Box a { { 0, 0 }, { 60, 30 }, k ? 2 : 1, 1, 0, 1 }, b { { at[col][0], ROWS[row][0] }, { at[col][1], ROWS[row][1] }, 1, k ? 2 : 1, 0, 1 };
	std::vector<Line> ls { { view(plane, 0), 45 }, { view(plane, 1), -33 }, { view(plane, 2), 5 }, { view(plane, 2), 29 } };
	auto o = process({ a, b }, ls, p, plane, SAME, true); sound(o, p, ls, true);
	if(how == SAME) { same(o, plane, process({ a, b }, ls, p, plane, SAME, true, s), plane, "moving everything moves the mesh", s); return; }
	if(how == N_HOW) { std::vector<Line> moved; for(int i = 0; i < 4; ++i) moved.push_back({ view(other, i < 2 ? i : 2), ls[i].c }); same(o, plane, process({ a, b }, moved, p, other, SAME, true), other, "the mesh does not depend on the plane"); return; }
	same(o, plane, process({ a, b }, ls, p, plane, how, true), plane, WHAT[how]);
}
SYM_CASE(moved, 2, "two boxes in 9 relative positions, 2 mixes of materials, 4 fixed lines, moved to any place along one axis (|k| <= 3000)") { mesh(SAME, ZX, ZX, 3, 3); }
SYM_CASE(moved_wide, 1, "two boxes in 36 relative positions, 2 mixes of materials, 4 fixed lines, moved to any place along one axis (|k| <= 3000)") { mesh(SAME, ZX, ZX); }
SYM_CASE(meshes, 1, "two boxes in 36 relative positions, 2 mixes of materials, 4 fixed lines: meshes compared over orders, rotations, first vertices, planes") { int how = (int) sym_pick("how", 1, N_HOW); mesh(how, XY, sym_pick("plane", 0, 1) ? ZX : YZ); }
// Outlines with diagonal edges: everything from geometry to the limits of the intervals.
struct Shape { std::vector<IP> at; int kind; int prio; int64_t z0, z1; };
struct Iv { double a, b, dmax; size_t la, lb; double sa, sb; };
struct Zoned { Out o; std::vector<Iv> iv[3]; };
static Zoned zoned(std::vector<Shape> ps, std::vector<Line> ls, Params const& p, Plane plane, int how, double shift, bool all) {
	Caretaker::singleton().reset(); Board::Builder bd; bd.set_background_material(mat(3));
	if(how == ORDER) std::reverse(ps.begin(), ps.end());
	if(how == LINES) std::reverse(ls.begin(), ls.end());
	for(auto& b : ps) {
		Polygon::RangeZ z(how == HEIGHTS ? (double) b.z1 : (double) b.z0, how == HEIGHTS ? (double) b.z0 : (double) b.z1);
		auto at = b.at; if(how == CORNERS) std::reverse(at.begin(), at.end()); if(how == FIRST) std::rotate(at.begin(), at.begin() + 2, at.end());
		std::vector<std::unique_ptr<Point const>> v; for(auto& q : at) v.push_back(std::make_unique<Point const>((double) q.x + shift, (double) q.y));
		bd.add_polygon(plane, mat(b.kind), "b", (size_t) b.prio, z, std::move(v));
	}
	for(auto& l : ls) bd.add_fixed_meshline_policy((Axis) l.axis, l.c);
	OpenEMSH o({}); o.board = bd.build(Params(p));
	if(all) o.run_all_steps();
	else { auto steps = app::that_and_after(Step::ADJUST_EDGE_TO_MATERIAL); steps.erase(Step::MESH); o.run(steps); }
	Zoned r;
	for(auto a : AllAxis) {
		for(auto& q : o.board->get_meshline_policies(a)) { auto const& s = q->get_current_state(); if(s.is_enabled) r.o.pol[a].push_back({ q->coord.value(), (int) s.policy, (int) s.normal }); }
		std::sort(r.o.pol[a].begin(), r.o.pol[a].end(), [](auto& x, auto& y) { return x.c < y.c; });
		for(auto& i : o.board->get_intervals(a)) { auto const& s = i->get_current_state(); r.iv[a].push_back({ s.before.meshline_policy->coord.value(), s.after.meshline_policy->coord.value(), s.dmax, s.before.lmin, s.after.lmin, s.before.smoothness, s.after.smoothness }); }
		for(auto& l : o.board->get_meshlines(a)) r.o.mesh[a].push_back(l->coord.value());
	}
	return r;
}
static void same(Zoned const& a, Plane pa, Zoned const& b, Plane pb, char const* what, double moved) {
	same(a.o, pa, b.o, pb, what, moved);
	for(int k = 0; k < 3; ++k) {
		double shift = k == 0 ? moved : 0; auto &x = a.iv[view(pa, k)], &y = b.iv[view(pb, k)]; bool ok = x.size() == y.size();
		if(ok) for(size_t i = 0; i < x.size(); ++i) ok = ok & near(x[i].a + shift, y[i].a) & near(x[i].b + shift, y[i].b) & (x[i].dmax == y[i].dmax) & (x[i].la == y[i].la) & (x[i].lb == y[i].lb) & (x[i].sa == y[i].sa) & (x[i].sb == y[i].sb);
		sym_assert(ok, what);
	}
}
static void slanted(int shapes, int places, int rows, int64_t r, bool all) {
	Params p = params(12, 2, 2, 1); p.diagonal_dmax = 3; p.diagonal_lmin = 3;
	static std::vector<IP> const sh[] = { { { 0, 0 }, { 40, 0 }, { 40, 40 } }, { { 16, 0 }, { 40, 0 }, { 60, 20 }, { 40, 40 }, { 16, 40 }, { -4, 20 } }, { { 0, 0 }, { 40, 0 }, { 40, 10 }, { 24, 26 }, { 0, 26 } } };
	static int64_t const at[] = { 7, -15, 60 };
	int s = (int) sym_pick("shape", 0, shapes - 1), row = (int) sym_pick("row", 0, rows - 1), how = (int) sym_pick("how", 0, N_HOW), k = (int) sym_pick("kind", 0, 1); bool both = sym_pick("both", 0, 1);
	static int const ks[][3] = { { 1, 1, 1 }, { 2, 1, 2 } }; static int64_t const xs[] = { 20, -7, 33, 60, 5, 48 }; int64_t x = xs[sym_pick("place", 0, places - 1)]; double c = sym_grid("c", -r, r, 0);
	std::vector<IP> box { { 0, 0 }, { 50, 0 }, { 50, 30 }, { 0, 30 } }; if(both) box = { { 0, 0 }, { 50, 0 }, { 50, 20 }, { 40, 30 }, { 0, 30 } };
	Shape a { box, ks[k][0], 1, 0, 1 }, b { sh[s], ks[k][1], ks[k][2], 0, 1 }; for(auto& q : b.at) q = { q.x + x, q.y + at[row] };
	Plane plane = XY, other = row & 1 ? ZX : YZ; std::vector<Line> ls { { view(plane, 0), c + 45 }, { view(plane, 1), -33 } };
	auto o = zoned({ a, b }, ls, p, plane, SAME, c, all); sound(o.o, p, ls, all);
	if(how == SAME) { auto far = ls; far[0].c = far[0].c + 300; same(o, plane, zoned({ a, b }, far, p, plane, SAME, c + 300, all), plane, "moving everything moves the mesh", 300); return; }
	if(how == N_HOW) { std::vector<Line> moved; for(int i = 0; i < 2; ++i) moved.push_back({ view(other, i), ls[i].c }); same(o, plane, zoned({ a, b }, moved, p, other, SAME, c, all), other, "the mesh does not depend on the plane", 0); return; }
	same(o, plane, zoned({ a, b }, ls, p, plane, how, c, all), plane, WHAT[how], 0);
}
SYM_CASE(slanted, 2, "a box or a box with a cut corner, and one of 2 outlines with diagonal edges in 2 relations, 2 mixes of materials and priorities, 2 fixed lines: policies and intervals compared over orders, rotations, first vertices, heights, planes, and moved; all of it at any place along x (|k| <= 1000)") { slanted(2, 2, 1, 1000, false); }
SYM_CASE(slanted_wide, 1, "a box or a box with a cut corner, and one of 3 outlines with diagonal edges in 18 relations, 2 mixes of materials and priorities, 2 fixed lines: policies and intervals compared over orders, rotations, first vertices, heights, planes, and moved; all of it at any place along x (|k| <= 1000)") { slanted(3, 6, 3, 1000, false); }
