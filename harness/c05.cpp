// C05: point against polygon.
#include "common.hpp"
using namespace domain;
using relation::PolygonPoint;

static void pip(std::vector<IP> const& v, IP p) {
	auto poly = make_polygon(v);
	auto r = poly->relation_to(dp(p));
	bool on = false;
	for(size_t i = 0; i < v.size(); ++i) on = on || on_segment(v[i], v[(i + 1) % v.size()], p);
	if(on) sym_assert(r == PolygonPoint::ON, "a point of the outline is on the polygon");
	else if(even_odd(v, p)) sym_assert(r == PolygonPoint::IN, "a point enclosed by the outline is inside");
	else sym_assert(r == PolygonPoint::OUT, "a point not enclosed is outside");
	sym_observe_int((int) r);
}
SYM_CASE(rectangle, 0, "axis-aligned rectangle in either rotation, corners and point |k| <= 10000") {
	int64_t m = 10000, x0 = sym_int("x0", -m, m), x1 = sym_int("x1", -m, m), y0 = sym_int("y0", -m, m), y1 = sym_int("y1", -m, m);
	sym_assume(x0 != x1); sym_assume(y0 != y1);
	pip({ { x0, y0 }, { x1, y0 }, { x1, y1 }, { x0, y1 } }, ip("px", "py", -m - 3, m + 3));
}
SYM_CASE(l_shape, 0, "L-shaped polygon with ordered symbolic cuts, |k| <= 1000, any point") {
	int64_t m = 1000, x0 = sym_int("x0", -m, m), x1 = sym_int("x1", -m, m), x2 = sym_int("x2", -m, m), y0 = sym_int("y0", -m, m), y1 = sym_int("y1", -m, m), y2 = sym_int("y2", -m, m);
	sym_assume(x0 < x1); sym_assume(x1 < x2); sym_assume(y0 < y1); sym_assume(y1 < y2);
	std::vector<IP> v { { x0, y0 }, { x2, y0 }, { x2, y1 }, { x1, y1 }, { x1, y2 }, { x0, y2 } };
	pip(v, ip("px", "py", -m - 2, m + 2));
}
SYM_CASE(triangle, 1, "any non-degenerate triangle and point, |k| <= 4") {
	std::vector<IP> v { ip("x0", "y0", -4, 4), ip("x1", "y1", -4, 4), ip("x2", "y2", -4, 4) };
	sym_assume(cross(v[0], v[1], v[2]) != 0);
	pip(v, ip("px", "py", -5, 5));
}
SYM_CASE(triangle_tip, 0, "triangle on a slanted base with a symbolic tip and point, |k| <= 20") {
	std::vector<IP> v { { 0, 0 }, { 7, 3 }, ip("x2", "y2", -20, 20) };
	sym_assume(cross(v[0], v[1], v[2]) != 0);
	pip(v, ip("px", "py", -22, 22));
}
SYM_CASE(shapes, 0, "seven fixed outlines (convex, concave, star, self-crossing, both rotations), any point |k| <= 30") {
	static std::vector<std::vector<IP>> const all {
		{ { 0, 0 }, { 10, 0 }, { 12, 6 }, { 5, 11 }, { -3, 5 } },
		{ { 0, 0 }, { -3, 5 }, { 5, 11 }, { 12, 6 }, { 10, 0 } },
		{ { 0, 0 }, { 8, 0 }, { 4, 4 }, { 8, 8 }, { 0, 8 }, { 3, 4 } },
		{ { 0, 10 }, { 3, 3 }, { 10, 0 }, { 3, -3 }, { 0, -10 }, { -3, -3 }, { -10, 0 }, { -3, 3 } },
		{ { 0, 0 }, { 10, 10 }, { 10, 0 }, { 0, 10 } },
		{ { 0, 0 }, { 12, 0 }, { 12, 2 }, { 2, 2 }, { 2, 4 }, { 12, 4 }, { 12, 6 }, { 0, 6 } },
		{ { 0, 0 }, { 4, 0 }, { 4, 4 }, { 8, 4 }, { 8, 8 }, { 12, 8 }, { 12, 12 }, { 0, 12 } },
	};
	auto const& v = all[sym_pick("shape", 0, 6)];
	pip(v, ip("px", "py", -30, 30));
}
SYM_CASE(triangle_large, 1, "triangle with one vertex at the origin, others and point |k| <= 6") {
	std::vector<IP> v { { 0, 0 }, ip("x1", "y1", -6, 6), ip("x2", "y2", -6, 6) };
	sym_assume(cross(v[0], v[1], v[2]) != 0);
	pip(v, ip("px", "py", -7, 7));
}
SYM_CASE(u_shape, 0, "U-shaped polygon with ordered symbolic cuts, |k| <= 1000, any point") {
	int64_t m = 1000; int64_t x[4], y[3]; char const* nx[] = { "x0", "x1", "x2", "x3" }; char const* ny[] = { "y0", "y1", "y2" };
	for(int i = 0; i < 4; ++i) { x[i] = sym_int(nx[i], -m, m); if(i) sym_assume(x[i - 1] < x[i]); }
	for(int i = 0; i < 3; ++i) { y[i] = sym_int(ny[i], -m, m); if(i) sym_assume(y[i - 1] < y[i]); }
	std::vector<IP> v { { x[0], y[0] }, { x[3], y[0] }, { x[3], y[2] }, { x[2], y[2] }, { x[2], y[1] }, { x[1], y[1] }, { x[1], y[2] }, { x[0], y[2] } };
	pip(v, ip("px", "py", -m - 2, m + 2));
}
SYM_CASE(concave_vertices, 0, "arrow-shaped concave quadrilateral whose tip and point are symbolic, |k| <= 6") {
	std::vector<IP> v { { -6, -4 }, ip("tx", "ty", -3, 5), { -6, 4 }, ip("ux", "uy", 6, 8) };
	pip(v, ip("px", "py", -8, 9));
}
SYM_CASE(quad, 1, "any quadrilateral with one vertex at the origin (also self-crossing), |k| <= 3") {
	std::vector<IP> v { { 0, 0 }, ip("x1", "y1", -3, 3), ip("x2", "y2", -3, 3), ip("x3", "y3", -3, 3) };
	pip(v, ip("px", "py", -4, 4));
}
// The rays tried one after another: towards the four sides of the box, then ever steeper to its right; here each of the first 11 meets a vertex seen from the middle.
SYM_CASE(rays, 0, "a star around the origin, or a split ring around it, with a vertex on each of the first 4 to 11 rays from it, either rotation; any point |k| <= 2") {
	static IP const right[] = { { 105, 1 }, { 84, 1 }, { 70, 1 }, { 60, 1 }, { 105, 2 }, { 140, 3 }, { 42, 1 } };
	int n = (int) sym_pick("blocked", 0, 7); bool ring = sym_pick("ring", 0, 1), rev = sym_pick("reversed", 0, 1);
	std::vector<IP> v { { 200, 0 } }; for(int i = 0; i < n; ++i) v.push_back(right[i]); for(IP q : { IP { 0, 90 }, IP { -90, 0 }, IP { 0, -90 } }) v.push_back(q);
	if(ring) { std::vector<IP> o; for(auto& q : v) o.push_back({ q.x * 2, q.y * 2 }); v.insert(v.end(), o.rbegin(), o.rend()); for(auto& q : v) if(q.x == 400) q.x = 419; } else v[0].x = 419;
	if(rev) std::reverse(v.begin(), v.end());
	pip(v, ip("px", "py", -2, 2));
}
