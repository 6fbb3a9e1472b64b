// C02: bounding boxes and overlap predicates.
#include "common.hpp"
using namespace domain;
SYM_CASE(overlap_1d, 0, "bounds k/4, |k| <= 1000, min <= max") {
	int64_t v[5]; char const* n[] = { "a0", "a1", "b0", "b1", "p" };
	for(int i = 0; i < 5; ++i) v[i] = sym_int(n[i], -1000, 1000);
	sym_assume(v[0] <= v[1]); sym_assume(v[2] <= v[3]);
	Bounding1D a { v[0] * .25, v[1] * .25 }, b { v[2] * .25, v[3] * .25 };
	sym_assert(does_overlap(a, Coord(v[4] * .25)) == (v[0] <= v[4] && v[4] <= v[1]), "interval contains coordinate");
	bool o = !(v[1] < v[2] || v[3] < v[0]);
	sym_assert(does_overlap(a, b) == o, "intervals overlap exactly when they share a point");
	sym_assert(does_overlap(b, a) == o, "symmetric");
	sym_assert(does_overlap(Polygon::RangeZ(a[0], a[1]), Polygon::RangeZ(b[0], b[1])) == o, "height ranges overlap exactly when they share a height");
}
SYM_CASE(overlap_2d, 0, "boxes with corners k/4, |k| <= 1000") {
	int64_t v[8]; char const* n[] = { "axmin", "axmax", "aymin", "aymax", "bxmin", "bxmax", "bymin", "bymax" };
	for(int i = 0; i < 8; ++i) v[i] = sym_int(n[i], -1000, 1000);
	for(int i = 0; i < 8; i += 2) sym_assume(v[i] <= v[i + 1]);
	Bounding2D a, b;
	for(int i = 0; i < 4; ++i) { a[i] = v[i] * .25; b[i] = v[4 + i] * .25; }
	bool o = !(v[1] < v[4] || v[5] < v[0] || v[3] < v[6] || v[7] < v[2]);
	bool s = !(v[1] <= v[4] || v[5] <= v[0] || v[3] <= v[6] || v[7] <= v[2]);
	sym_assert(does_overlap(a, b) == o, "boxes overlap exactly when they share a point");
	sym_assert(does_overlap(b, a) == o, "overlap is symmetric");
	sym_assert(does_overlap_strict(a, b) == (s && v[0] < v[1] && v[2] < v[3] && v[4] < v[5] && v[6] < v[7]), "boxes overlap strictly exactly when their interiors meet");
	sym_assert(does_overlap_strict(a, b) == does_overlap_strict(b, a), "strict overlap is symmetric");
	sym_assert(!does_overlap_strict(a, b) || o, "strict overlap implies overlap");
	auto h = cast(H, a), w = cast(V, a);
	sym_assert(h[XMIN].value() == a[XMIN].value() && h[XMAX].value() == a[XMAX].value() && w[XMIN].value() == a[YMIN].value() && w[XMAX].value() == a[YMAX].value(), "projection of a box on an axis");
}
SYM_CASE(ranges, 0, "height ranges k/4, |k| <= 1000, either order") {
	int64_t a = sym_int("a", -1000, 1000), b = sym_int("b", -1000, 1000);
	Polygon::RangeZ r(a * .25, b * .25);
	sym_assert(r.min.value() == imin(a, b) * .25 && r.max.value() == imax(a, b) * .25, "a height range is ordered whatever the order of its ends");
}
SYM_CASE(segment_bounding, 0, "segment ends k/4, |k| <= 1000") {
	IP a = ip("x0", "y0", -1000, 1000), b = ip("x1", "y1", -1000, 1000);
	Range r(dp(a, .25), dp(b, .25));
	Bounding2D g = bounding(r);
	sym_assert(g[XMIN].value() == imin(a.x, b.x) * .25 && g[XMAX].value() == imax(a.x, b.x) * .25
	        && g[YMIN].value() == imin(a.y, b.y) * .25 && g[YMAX].value() == imax(a.y, b.y) * .25, "bounding box of a segment is tight");
	Point m = mid(r);
	sym_assert(m.x.value() * 8 == a.x + b.x && m.y.value() * 8 == a.y + b.y, "middle of a segment");
	auto x = r.axis;
	sym_assert(x == (a.x == b.x ? a.y == b.y ? Segment::Axis::POINT : Segment::Axis::V : a.y == b.y ? Segment::Axis::H : Segment::Axis::DIAGONAL), "orientation of a segment");
	auto c = coord(dp(a, .25), x);
	sym_assert(c.has_value() == (x == Segment::Axis::H || x == Segment::Axis::V), "only axis-aligned segments have a line coordinate");
	if(c) sym_assert(c->value() == (x == Segment::Axis::H ? a.y : a.x) * .25, "line coordinate of an axis-aligned segment");
	Range q(dp(b, .25), dp(a, .25));
	sym_assert(r == q, "a range equals its reverse");
}
SYM_CASE(polygon_bounding, 0, "5 points k/4, |k| <= 1000") {
	std::vector<IP> v; char const* nx[] = { "x0", "x1", "x2", "x3", "x4" }; char const* ny[] = { "y0", "y1", "y2", "y3", "y4" };
	for(int i = 0; i < 5; ++i) v.push_back(ip(nx[i], ny[i], -1000, 1000));
	std::vector<std::unique_ptr<Point const>> pts;
	for(auto& p : v) pts.push_back(std::make_unique<Point const>(dp(p, .25)));
	Bounding2D g = detect_bounding(pts);
	bool tx0 = false, tx1 = false, ty0 = false, ty1 = false, all = true;
	for(auto& p : v) {
		double x = p.x * .25, y = p.y * .25;
		all = all & (x >= g[XMIN].value()) & (x <= g[XMAX].value()) & (y >= g[YMIN].value()) & (y <= g[YMAX].value());
		tx0 |= x == g[XMIN].value(); tx1 |= x == g[XMAX].value(); ty0 |= y == g[YMIN].value(); ty1 |= y == g[YMAX].value();
	}
	sym_assert(all, "every point is inside the bounding box");
	sym_assert(tx0 && tx1 && ty0 && ty1, "every side of the bounding box carries a point");
}
