// C07: the correspondence between axes, planes, views and normals.
#include "common.hpp"
using namespace domain;

SYM_CASE(space, 0, "every plane, axis and view axis") {
	auto plane = (Plane) sym_int("plane", 0, 2); auto axis = (Axis) sym_int("axis", 0, 2); auto view = (ViewAxis) sym_int("view", 0, 1);
	auto v = transpose(plane, axis);
	// The plane named after two axes contains those and not the third.
	int out = plane == YZ ? X : plane == ZX ? Y : Z;
	sym_assert(v.has_value() == ((int) axis != out), "an axis has a view direction iff it lies in the plane");
	if(v) sym_assert(transpose(plane, *v) == axis, "view axis converts back to the axis it came from");
	auto a = transpose(plane, view);
	sym_assert((int) a != out, "view axes lie in the plane");
	auto back = transpose(plane, a);
	sym_assert(back && *back == view, "axis converts back to the view axis it came from");
	sym_assert(Axes[plane][view] == a, "table and function agree");
	// right-handed: (h, v, out of plane) is a cyclic permutation of (X, Y, Z)
	int h = (int) transpose(plane, H), w = (int) transpose(plane, V);
	sym_assert((h + 1) % 3 == w && (w + 1) % 3 == out, "the view of each plane is right-handed");
}
SYM_CASE(reversal, 0, "every view axis and normal") {
	auto view = (ViewAxis) sym_int("view", 0, 1); auto n = (Normal) sym_int("normal", 0, 6);
	sym_assert(reverse(view) != view && reverse(reverse(view)) == view, "reversing a view axis swaps H and V");
	auto r = reverse(n);
	sym_assert(reverse(r) == n, "reversing a normal twice gives it back");
	sym_assert((r == n) == (n == Normal::NONE), "only NONE is its own reverse");
	auto kind = [](Normal a) { return a == Normal::XMIN || a == Normal::XMAX ? 0 : a == Normal::YMIN || a == Normal::YMAX ? 1 : a == Normal::ZMIN || a == Normal::ZMAX ? 2 : 3; };
	sym_assert(kind(r) == kind(n), "reversing a normal keeps its axis");
}
SYM_CASE(segment_axis, 0, "every plane, segment axis and view axis") {
	auto plane = (Plane) sym_int("plane", 0, 2); auto s = (Segment::Axis) sym_int("axis", 0, 3); auto view = (ViewAxis) sym_int("view", 0, 1);
	auto c = cast(s);
	bool hv = s == Segment::Axis::H || s == Segment::Axis::V;
	sym_assert(c.has_value() == hv, "only H and V segments have a view axis");
	if(c) sym_assert(cast(*c) == s, "segment axis survives the round trip");
	auto back = cast(cast(view));
	sym_assert(back && *back == view, "view axis survives the round trip");
	auto t = transpose(plane, s);
	sym_assert(t.has_value() == hv, "only H and V segments have a space axis");
	if(t) sym_assert(*t == transpose(plane, reverse(*c)), "the space axis of a segment's fixed coordinate is the one across its direction");
}
SYM_CASE(segment_coord, 0, "any point |k| <= 10000 and any second point") {
	IP a = ip("ax", "ay", -10000, 10000), b = ip("bx", "by", -10000, 10000);
	auto s = domain::axis(dp(a), dp(b));
	auto want = a.x == b.x && a.y == b.y ? Segment::Axis::POINT : a.y == b.y ? Segment::Axis::H : a.x == b.x ? Segment::Axis::V : Segment::Axis::DIAGONAL;
	sym_assert(s == want, "axis of a segment follows from the coordinates its ends share");
	sym_assert(domain::axis(dp(b) - dp(a)) == want, "axis of a vector agrees with axis of its ends");
	auto c = coord(dp(a), s);
	sym_assert(c.has_value() == (s == Segment::Axis::H || s == Segment::Axis::V), "only H and V segments have a fixed coordinate");
	if(c) {
		auto d = coord(dp(b), s);
		sym_assert(c->value() == (double) (s == Segment::Axis::H ? a.y : a.x), "the fixed coordinate is the one shared by both ends");
		sym_assert(d && *d == *c, "both ends give the same fixed coordinate");
	}
	Range r(dp(a), dp(b));
	auto m = mid(r);
	sym_assert(m.x.value() * 2 == (double) (a.x + b.x) && m.y.value() * 2 == (double) (a.y + b.y), "mid is the middle of both ends");
	auto bb = bounding(r);
	sym_assert(bb[XMIN].value() == (double) imin(a.x, b.x) && bb[XMAX].value() == (double) imax(a.x, b.x) && bb[YMIN].value() == (double) imin(a.y, b.y) && bb[YMAX].value() == (double) imax(a.y, b.y), "bounding box of a segment is spanned by its ends");
}
SYM_CASE(slopes, 0, "two points up to 2^20 apart along one direction and up to 2 apart, by steps of 2^-10, along the other") {
	double far = sym_grid("far", -1048576, 1048576, 0), off = sym_grid("off", -2048, 2048, -10); bool flat = sym_bool("flat");
	Point p0(flat ? 3.0 : 0.0, flat ? 0.0 : 3.0), p1(p0.x.value() + (flat ? far : off), p0.y.value() + (flat ? off : far));
	auto want = far == 0 && off == 0 ? Segment::Axis::POINT : far == 0 ? (flat ? Segment::Axis::V : Segment::Axis::H) : off == 0 ? (flat ? Segment::Axis::H : Segment::Axis::V) : Segment::Axis::DIAGONAL;
	auto s = domain::axis(p0, p1); sym_assert(s == want && domain::axis(p1, p0) == want, "a segment is diagonal however little it is so");
	sym_assert(coord(p0, s).has_value() == (want == Segment::Axis::H || want == Segment::Axis::V), "only H and V segments have a fixed coordinate");
	Edge e(XY, &p0, &p1, nullptr); sym_assert(e.axis == want, "an edge has the axis of its ends");
}
SYM_CASE(range_equality, 0, "two ranges |k| <= 1000") {
	IP a = ip("ax", "ay", -1000, 1000), b = ip("bx", "by", -1000, 1000), c = ip("cx", "cy", -1000, 1000), d = ip("dx", "dy", -1000, 1000);
	Range r(dp(a), dp(b)), q(dp(c), dp(d));
	auto same = [](IP p, IP o) { return p.x == o.x && p.y == o.y; };
	bool want = (same(a, c) && same(b, d)) || (same(a, d) && same(b, c));
	sym_assert((r == q) == want, "ranges are equal iff they have the same ends in either order");
	Point p0 = dp(c), p1 = dp(d);
	Edge e(XY, &p0, &p1, nullptr);
	sym_assert((e == r) == want && (r == e) == want, "an edge equals a range iff they have the same ends in either order");
}
