// C04: points shared by segments: intersection, overlap and union.
#include "common.hpp"
using namespace domain;
using relation::SegmentSegment;

static void inter(IP a, IP b, IP c, IP d) {
	Range s(dp(a), dp(b)), t(dp(c), dp(d));
	sym_assume(touch(a, b, c, d));
	int64_t ux = b.x - a.x, uy = b.y - a.y, vx = d.x - c.x, vy = d.y - c.y;
	int64_t den = ux * vy - uy * vx;
	sym_assume(den != 0); // crossing segments on different lines
	auto p = intersection(s, t);
	sym_assert(p.has_value(), "crossing segments have an intersection point");
	if(!p) return;
	// the intersection is c + v * num / den
	int64_t num = ux * (a.y - c.y) - uy * (a.x - c.x);
	double ex = p->x.value() * (double) den - (double) (c.x * den + vx * num);
	double ey = p->y.value() * (double) den - (double) (c.y * den + vy * num);
	sym_assert(ex < 1e-9 && -ex < 1e-9 && ey < 1e-9 && -ey < 1e-9, "the intersection point is on both segments");
}
SYM_CASE(cross_axis, 0, "horizontal and vertical segments, |k| <= 100, crossing") {
	IP a = ip("ax", "ay", -100, 100), b { sym_int("bx", -100, 100), a.y };
	IP c = ip("cx", "cy", -100, 100), d { c.x, sym_int("dy", -100, 100) };
	sym_assume(touch(a, b, c, d)); sym_assume(a.x != b.x); sym_assume(c.y != d.y);
	Range s(dp(a, .125), dp(b, .125)), t(dp(c, .125), dp(d, .125));
	auto p = intersection(s, t), q = intersection(t, s);
	sym_assert(p.has_value() && q.has_value(), "crossing segments have an intersection point");
	sym_assert(p->x.value() == c.x * .125 && p->y.value() == a.y * .125, "the intersection point is on both segments");
	sym_assert(q->x.value() == c.x * .125 && q->y.value() == a.y * .125, "the intersection point does not depend on the order");
}
SYM_CASE(cross_diagonal, 0, "axis-aligned segment of length 1..3 and a segment with any direction |dx|,|dy| <= 2, anywhere |k| <= 100, crossing") {
	int64_t l = sym_pick("len", -3, 3), dx = sym_pick("dx", -2, 2), dy = sym_pick("dy", -2, 2);
	bool vert = sym_pick("vertical", 0, 1), swap = sym_pick("swap", 0, 1);
	IP a = ip("ax", "ay", -100, 100), b = vert ? IP { a.x, a.y + l } : IP { a.x + l, a.y };
	IP c = ip("cx", "cy", -100, 100), d = { c.x + dx, c.y + dy };
	if(swap) inter(c, d, a, b); else inter(a, b, c, d);
}
SYM_CASE(cross_any, 1, "two segments with any directions |dx|,|dy| <= 3, anywhere |k| <= 100, crossing") {
	int64_t ux = sym_pick("ux", -3, 3), uy = sym_pick("uy", -3, 3), vx = sym_pick("vx", -3, 3), vy = sym_pick("vy", -3, 3);
	if(ux * vy == uy * vx) sym_stop();
	IP a = ip("ax", "ay", -100, 100), b { a.x + ux, a.y + uy }, c = ip("cx", "cy", -100, 100), d { c.x + vx, c.y + vy };
	inter(a, b, c, d);
}
// Two parallel axis-aligned segments, horizontal or vertical.
static void parallel(bool vert, bool same_line) {
	int64_t m = 1000;
	int64_t l0 = sym_int("line0", -m, m), l1 = same_line ? l0 : sym_int("line1", -m, m);
	int64_t a0 = sym_int("a0", -m, m), a1 = sym_int("a1", -m, m), b0 = sym_int("b0", -m, m), b1 = sym_int("b1", -m, m);
	sym_assume(a0 != a1); sym_assume(b0 != b1);
	auto P = [&](int64_t l, int64_t v) { return vert ? dp({ l, v }, .25) : dp({ v, l }, .25); };
	Range s(P(l0, a0), P(l0, a1)), t(P(l1, b0), P(l1, b1));
	int64_t al = imin(a0, a1), ah = imax(a0, a1), bl = imin(b0, b1), bh = imax(b0, b1);
	bool meet = l0 == l1 && al <= bh && bl <= ah;
	auto o = overlap(s, t); auto u = merge(s, t);
	sym_assert(o.has_value() == meet, "an overlap exists exactly when the segments share a point");
	sym_assert(u.has_value() == meet, "a union exists exactly when the segments share a point");
	if(meet) {
		auto lo = [&](Range const& r) { return vert ? r.p0().y.value() : r.p0().x.value(); };
		auto hi = [&](Range const& r) { return vert ? r.p1().y.value() : r.p1().x.value(); };
		auto li = [&](Point const& p) { return vert ? p.x.value() : p.y.value(); };
		sym_assert(li(o->p0()) == l0 * .25 && li(o->p1()) == l0 * .25, "the overlap is on the line");
		sym_assert(li(u->p0()) == l0 * .25 && li(u->p1()) == l0 * .25, "the union is on the line");
		sym_assert(lo(*o) == imax(al, bl) * .25 && hi(*o) == imin(ah, bh) * .25, "the overlap is the common part");
		sym_assert(lo(*u) == imin(al, bl) * .25 && hi(*u) == imax(ah, bh) * .25, "the union spans both segments");
		auto o2 = overlap(t, s); auto u2 = merge(t, s);
		sym_assert(o2.has_value() && u2.has_value() && *o == *o2 && *u == *u2, "overlap and union are symmetric");
	}
}
SYM_CASE(parallel_h, 0, "two horizontal segments, ends k/4, |k| <= 1000") { parallel(false, sym_bool("same_line")); }
SYM_CASE(parallel_v, 0, "two vertical segments, ends k/4, |k| <= 1000") { parallel(true, sym_bool("same_line")); }
SYM_CASE(perpendicular, 0, "a horizontal and a vertical segment, |k| <= 1000") {
	IP a = ip("ax", "ay", -1000, 1000), c = ip("cx", "cy", -1000, 1000);
	int64_t bx = sym_int("bx", -1000, 1000), dy = sym_int("dy", -1000, 1000);
	sym_assume(bx != a.x); sym_assume(dy != c.y);
	Range s(dp(a), dp({ bx, a.y })), t(dp(c), dp({ c.x, dy }));
	sym_assert(!overlap(s, t) && !overlap(t, s), "perpendicular segments do not overlap");
	sym_assert(!merge(s, t) && !merge(t, s), "perpendicular segments do not merge");
}
