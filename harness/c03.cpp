// C03: how segments and points relate, against exact integer geometry.
#include "common.hpp"
using namespace domain;
using relation::SegmentPoint; using relation::SegmentSegment;

static void seg_seg(IP a, IP b, IP c, IP d, double scale) {
	Range s(dp(a, scale), dp(b, scale)), t(dp(c, scale), dp(d, scale));
	auto r = s.relation_to(t);
	bool col = cross(a, b, c) == 0 && cross(a, b, d) == 0 && cross(c, d, a) == 0 && cross(c, d, b) == 0;
	if(col) {
		bool o = imin(imax(a.x, b.x), imax(c.x, d.x)) >= imax(imin(a.x, b.x), imin(c.x, d.x))
		      && imin(imax(a.y, b.y), imax(c.y, d.y)) >= imax(imin(a.y, b.y), imin(c.y, d.y));
		sym_assert(r == (o ? SegmentSegment::OVERLAPPING : SegmentSegment::COLINEAR), "segments on one line overlap exactly when they share a point");
	} else {
		bool t2 = touch(a, b, c, d);
		sym_assert(r == (t2 ? SegmentSegment::CROSSING : SegmentSegment::APART), "segments on different lines cross exactly when they share a point");
	}
	sym_assert(t.relation_to(s) == r, "the relation is symmetric");
	sym_observe_int((int) r);
}
SYM_CASE(segment_segment, 2, "two segments, ends on the grid k/2, |k| <= 2") {
	IP a = ip("ax", "ay", -2, 2), b = ip("bx", "by", -2, 2), c = ip("cx", "cy", -2, 2), d = ip("dx", "dy", -2, 2);
	seg_seg(a, b, c, d, .5);
}
SYM_CASE(segment_segment_3, 1, "two segments, ends on the grid k/2, |k| <= 3") {
	IP a = ip("ax", "ay", -3, 3), b = ip("bx", "by", -3, 3), c = ip("cx", "cy", -3, 3), d = ip("dx", "dy", -3, 3);
	seg_seg(a, b, c, d, .5);
}
SYM_CASE(segment_fixed_origin, 1, "first segment from the origin, all other ends k, |k| <= 100") {
	IP a { 0, 0 }, b = ip("bx", "by", -100, 100), c = ip("cx", "cy", -100, 100), d = ip("dx", "dy", -100, 100);
	seg_seg(a, b, c, d, 1);
}
SYM_CASE(axis_aligned, 0, "two segments, each horizontal or vertical, |k| <= 1000") {
	IP a = ip("ax", "ay", -1000, 1000), b;
	if(sym_bool("vertical")) b = { a.x, sym_int("by", -1000, 1000) }; else b = { sym_int("bx", -1000, 1000), a.y };
	IP c = ip("cx", "cy", -1000, 1000), d;
	if(sym_bool("vertical2")) d = { c.x, sym_int("dy", -1000, 1000) }; else d = { sym_int("dx", -1000, 1000), c.y };
	seg_seg(a, b, c, d, .5);
}
static void seg_pt(IP a, IP b, IP p, double scale) {
	Range s(dp(a, scale), dp(b, scale));
	auto r = s.relation_to(dp(p, scale));
	sym_assert(r == (on_segment(a, b, p) ? SegmentPoint::ON : SegmentPoint::OUT), "a point is on a segment exactly when it lies on its closed extent");
	Range t(dp(b, scale), dp(a, scale));
	sym_assert(t.relation_to(dp(p, scale)) == r, "the relation does not depend on the segment's direction");
}
SYM_CASE(segment_point, 0, "segment and point on the grid k/4, |k| <= 20") {
	IP a = ip("ax", "ay", -20, 20), b = ip("bx", "by", -20, 20), p = ip("px", "py", -20, 20);
	seg_pt(a, b, p, .25);
}
SYM_CASE(segment_point_wide, 1, "segment and point on the grid k/4, |k| <= 1000") {
	IP a = ip("ax", "ay", -1000, 1000), b = ip("bx", "by", -1000, 1000), p = ip("px", "py", -1000, 1000);
	seg_pt(a, b, p, .25);
}
