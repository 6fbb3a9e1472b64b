// C06: what a polygon derives from its outline at construction.
#include "common.hpp"
using namespace domain;
using Rot = Polygon::Rotation;

static int64_t area2(std::vector<IP> const& v) {
	int64_t s = 0;
	for(size_t i = 0; i < v.size(); ++i) { IP a = v[i], b = v[(i + 1) % v.size()]; s += a.x * b.y - b.x * a.y; }
	return s;
}
static void structure(std::vector<IP> const& v, Polygon const& poly) {
	size_t n = v.size();
	sym_assert(poly.points.size() == n, "the polygon keeps every vertex");
	sym_assert(poly.edges.size() == n, "the polygon has one edge per vertex");
	int64_t x0 = v[0].x, x1 = v[0].x, y0 = v[0].y, y1 = v[0].y;
	for(size_t i = 0; i < n; ++i) {
		IP a = v[(i + n - 1) % n], b = v[i];
		auto const& e = *poly.edges[i];
		sym_assert(poly.points[i]->x.value() == (double) b.x && poly.points[i]->y.value() == (double) b.y, "vertices keep their order and value");
		sym_assert(&e.p0() == poly.points[(i + n - 1) % n].get() && &e.p1() == poly.points[i].get(), "edge i goes from vertex i-1 to vertex i");
		sym_assert(e.vec.x.value() == (double) (b.x - a.x) && e.vec.y.value() == (double) (b.y - a.y), "edge vector is p1 - p0");
		sym_assert(e.plane == poly.plane, "edges lie in the polygon's plane");
		bool h = a.y == b.y, w = a.x == b.x;
		if(h && w) sym_assert(e.axis == Segment::Axis::POINT && e.normal == Normal::NONE, "a zero-length edge has no axis and no normal");
		else if(h) sym_assert(e.axis == Segment::Axis::H && e.direction == (b.x > a.x ? Edge::Direction::XMAX : Edge::Direction::XMIN), "horizontal edge direction");
		else if(w) sym_assert(e.axis == Segment::Axis::V && e.direction == (b.y > a.y ? Edge::Direction::YMAX : Edge::Direction::YMIN), "vertical edge direction");
		else sym_assert(e.axis == Segment::Axis::DIAGONAL && e.direction == Edge::Direction::NONE && e.normal == Normal::NONE, "diagonal edge has neither direction nor normal");
		x0 = imin(x0, b.x); x1 = imax(x1, b.x); y0 = imin(y0, b.y); y1 = imax(y1, b.y);
		auto st = e.get_current_state();
		sym_assert(st.to_mesh && !st.to_reverse && !st.meshline_policy, "a new edge is to be meshed and has no policy yet");
	}
	sym_assert(poly.bounding[XMIN].value() == (double) x0 && poly.bounding[XMAX].value() == (double) x1
		&& poly.bounding[YMIN].value() == (double) y0 && poly.bounding[YMAX].value() == (double) y1, "bounding box is the tight box of the vertices");
	int64_t s = area2(v);
	sym_assert(poly.rotation == (s == 0 ? Rot::COLINEAR : s > 0 ? Rot::CCW : Rot::CW), "rotation is the sign of the enclosed area");
}
static Normal normal_of(int dx, int dy) { return dx < 0 ? Normal::XMIN : dx > 0 ? Normal::XMAX : dy < 0 ? Normal::YMIN : Normal::YMAX; }
// simple outline: axis-aligned edges look outwards
static void outward(std::vector<IP> const& v, Polygon const& poly) {
	std::vector<IP> s; // x4
	for(auto const& p : v) s.push_back({ p.x * 4, p.y * 4 });
	size_t n = v.size();
	for(size_t i = 0; i < n; ++i) {
		IP a = s[(i + n - 1) % n], b = s[i];
		bool h = a.y == b.y, w = a.x == b.x;
		if(h == w) continue;
		IP m { 2 * (v[(i + n - 1) % n].x + v[i].x), 2 * (v[(i + n - 1) % n].y + v[i].y) };
		for(int d = -1; d <= 1; d += 2) {
			IP q { m.x + (w ? d : 0), m.y + (h ? d : 0) };
			bool in = even_odd(s, q);
			bool is = poly.edges[i]->normal == normal_of(w ? d : 0, h ? d : 0);
			sym_assert(is == !in, "the normal of an axis-aligned edge points out of the polygon");
		}
	}
}
static std::vector<IP> turn(std::vector<IP> v, bool rev, size_t start) {
	std::vector<IP> r;
	for(size_t i = 0; i < v.size(); ++i) r.push_back(v[(start + (rev ? v.size() - i : i)) % v.size()]);
	return r;
}
static void both(std::vector<IP> const& v) {
	auto w = turn(v, sym_bool("reversed"), sym_pick("start", 0, (int64_t) v.size() - 1));
	auto p = make_polygon(w);
	structure(w, *p);
	outward(w, *p);
}

SYM_CASE(any_triangle, 0, "any 3 points |k| <= 1000, colinear and coincident ones included") {
	std::vector<IP> v { ip("x0", "y0", -1000, 1000), ip("x1", "y1", -1000, 1000), ip("x2", "y2", -1000, 1000) };
	structure(v, *make_polygon(v));
}
SYM_CASE(any_quad_area, 0, "any 4 points |k| <= 1000 (crossed and degenerate outlines included): rotation and bounding box") {
	std::vector<IP> v { ip("x0", "y0", -1000, 1000), ip("x1", "y1", -1000, 1000), ip("x2", "y2", -1000, 1000), ip("x3", "y3", -1000, 1000) };
	std::vector<std::unique_ptr<Point const>> pts; std::vector<Point const*> raw;
	for(auto const& p : v) { pts.push_back(std::make_unique<Point const>((double) p.x, (double) p.y)); raw.push_back(pts.back().get()); }
	int64_t s = area2(v);
	Rot want = s == 0 ? Rot::COLINEAR : s > 0 ? Rot::CCW : Rot::CW;
	sym_assert(detect_rotation(pts) == want, "rotation is the sign of the enclosed area");
	sym_assert(detect_rotation(raw) == want, "rotation is the sign of the enclosed area (raw points)");
}
SYM_CASE(rectangle, 0, "any rectangle |k| <= 10000, either rotation, any first vertex") {
	int64_t m = 10000, x0 = sym_int("x0", -m, m), x1 = sym_int("x1", -m, m), y0 = sym_int("y0", -m, m), y1 = sym_int("y1", -m, m);
	sym_assume(x0 < x1); sym_assume(y0 < y1);
	both({ { x0, y0 }, { x1, y0 }, { x1, y1 }, { x0, y1 } });
}
SYM_CASE(l_shape, 0, "any L-shaped outline |k| <= 1000, either rotation, any first vertex") {
	int64_t m = 1000, x0 = sym_int("x0", -m, m), x1 = sym_int("x1", -m, m), x2 = sym_int("x2", -m, m), y0 = sym_int("y0", -m, m), y1 = sym_int("y1", -m, m), y2 = sym_int("y2", -m, m);
	sym_assume(x0 < x1); sym_assume(x1 < x2); sym_assume(y0 < y1); sym_assume(y1 < y2);
	both({ { x0, y0 }, { x2, y0 }, { x2, y1 }, { x1, y1 }, { x1, y2 }, { x0, y2 } });
}
SYM_CASE(u_shape, 0, "any U-shaped outline |k| <= 1000, either rotation, any first vertex") {
	int64_t m = 1000; int64_t x[4], y[3]; char const* nx[] = { "x0", "x1", "x2", "x3" }; char const* ny[] = { "y0", "y1", "y2" };
	for(int i = 0; i < 4; ++i) { x[i] = sym_int(nx[i], -m, m); if(i) sym_assume(x[i - 1] < x[i]); }
	for(int i = 0; i < 3; ++i) { y[i] = sym_int(ny[i], -m, m); if(i) sym_assume(y[i - 1] < y[i]); }
	both({ { x[0], y[0] }, { x[3], y[0] }, { x[3], y[2] }, { x[2], y[2] }, { x[2], y[1] }, { x[1], y[1] }, { x[1], y[2] }, { x[0], y[2] } });
}
SYM_CASE(cut_corner, 0, "rectangle with one corner cut diagonally at symbolic cuts, |k| <= 1000, either rotation, any first vertex") {
	int64_t m = 1000, w = sym_int("w", 2, m), h = sym_int("h", 2, m), cx = sym_int("cx", 1, m), cy = sym_int("cy", 1, m);
	sym_assume(cx < w); sym_assume(cy < h);
	both({ { 0, 0 }, { w, 0 }, { w, h - cy }, { w - cx, h }, { 0, h } });
}
SYM_CASE(repeated, 0, "a rectangle with a cut corner, one of its vertices given twice, at symbolic cuts |k| <= 1000, either rotation, any first vertex") {
	int64_t m = 1000, w = sym_int("w", 2, m), h = sym_int("h", 2, m), cx = sym_int("cx", 1, m), cy = sym_int("cy", 1, m);
	sym_assume(cx < w); sym_assume(cy < h);
	std::vector<IP> v { { 0, 0 }, { w, 0 }, { w, h - cy }, { w - cx, h }, { 0, h } }; auto k = sym_pick("twice", 0, 4); v.insert(v.begin() + k, v[(size_t) k]);
	both(v);
}
SYM_CASE(range_z, 0, "all pairs of finite doubles") {
	double a = sym_double("a"), b = sym_double("b");
	sym_assume(a - a == 0 && b - b == 0);
	Polygon::RangeZ r { Coord(a), Coord(b) };
	double lo = r.min.value(), hi = r.max.value();
	sym_assert(!(Coord(lo) > Coord(hi)), "the z range is ordered");
	sym_assert((lo == a || lo == b) && (hi == a || hi == b), "the z range holds the given bounds");
	sym_assert(Coord(a) == Coord(b) || (lo == a && hi == b) || (lo == b && hi == a), "distinct bounds are both kept");
}
SYM_CASE(z_overlap, 0, "z ranges with any bounds |k| <= 10000") {
	int64_t m = 10000, a0 = sym_int("a0", -m, m), a1 = sym_int("a1", -m, m), b0 = sym_int("b0", -m, m), b1 = sym_int("b1", -m, m);
	Polygon::RangeZ a { Coord((double) a0), Coord((double) a1) }, b { Coord((double) b0), Coord((double) b1) };
	bool want = imin(imax(a0, a1), imax(b0, b1)) >= imax(imin(a0, a1), imin(b0, b1));
	sym_assert(does_overlap(a, b) == want, "z ranges overlap iff they share a height");
	sym_assert(does_overlap(b, a) == want, "z overlap is symmetric");
}
