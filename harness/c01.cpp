// C01: tolerant equality and exact ordering of coordinates and points.
#include "common.hpp"
#include <cmath>
using namespace domain;
static double const TOL = 1e-8; // documented tolerance: equal iff closer than this

SYM_CASE(equality_all_doubles, 0, "two arbitrary finite doubles, all bit patterns") {
	double a = sym_double("a"), b = sym_double("b");
	sym_assume(std::isfinite(a)); sym_assume(std::isfinite(b));
	bool e = Coord(a) == Coord(b);
	sym_assert(Coord(a) == Coord(a), "a coordinate equals itself");
	sym_assert(e == (Coord(b) == Coord(a)), "equality is symmetric");
	sym_assert((Coord(a) != Coord(b)) == !e, "inequality is the negation of equality");
	sym_assert(!(a == b) || e, "identical values are equal");
	sym_assert(e == (std::fabs(a - b) < TOL), "equal exactly when closer than the tolerance");
	sym_assert((Coord(a) == b) == e, "mixed comparison (right) agrees");
	sym_assert((a == Coord(b)) == e, "mixed comparison (left) agrees");
	sym_cover("end");
}
SYM_CASE(order_all_doubles, 0, "two arbitrary finite doubles, all bit patterns") {
	double a = sym_double("a"), b = sym_double("b");
	sym_assume(std::isfinite(a)); sym_assume(std::isfinite(b));
	sym_assert((Coord(a) < Coord(b)) == (a < b), "< is the order of the values");
	sym_assert((Coord(a) > Coord(b)) == (a > b), "> is the order of the values");
	sym_assert((Coord(a) <= Coord(b)) == (a <= b), "<= is the order of the values");
	sym_assert((Coord(a) >= Coord(b)) == (a >= b), ">= is the order of the values");
	sym_assert((Coord(a) < Coord(b)) + (Coord(b) < Coord(a)) + (a == b) == 1, "exactly one of <, > and identity");
}
SYM_CASE(nearby, 0, "a in [-1e6,1e6]/8, offset any multiple of 2^-34 within +-2e-8 of a") {
	// values around the tolerance, in exact arithmetic
	double a = sym_grid("a", -8, 8, -3), d = sym_grid("d", -400, 400, -34);
	double b = a + d;
	bool e = Coord(a) == Coord(b);
	sym_assert(e == (d < TOL && -d < TOL), "equal exactly when closer than the tolerance");
	sym_assert((Coord(b) == Coord(a)) == e, "symmetric");
}
SYM_CASE(arithmetic, 0, "coordinates k/8, |k| <= 2^20") {
	int64_t m = 1 << 20;
	double a = sym_grid("a", -m, m, -3), b = sym_grid("b", -m, m, -3);
	sym_assert((Coord(a) + Coord(b)).value() == a + b, "sum");
	sym_assert((Coord(a) - Coord(b)).value() == a - b, "difference");
	sym_assert(mid(Coord(a), Coord(b)).value() * 2 == a + b, "mid is half way");
	double lo = a < b ? a : b, hi = a < b ? b : a;
	double md = mid(Coord(a), Coord(b)).value();
	sym_assert(md >= lo && md <= hi, "mid is between");
	double d = distance(Coord(a), Coord(b)).value();
	sym_assert(d == hi - lo, "distance is the absolute difference");
	sym_assert(distance(Coord(b), Coord(a)).value() == d, "distance is symmetric");
	Coord c(a); c += b; sym_assert(c.value() == a + b, "+=");
	c = Coord(a); c -= b; sym_assert(c.value() == a - b, "-=");
}
SYM_CASE(points, 0, "points on the grid 2^-30, |k| <= 64") {
	double v[4]; char const* n[] = { "ax", "ay", "bx", "by" };
	for(int i = 0; i < 4; ++i) v[i] = sym_grid(n[i], -64, 64, -30);
	Point a(v[0], v[1]), b(v[2], v[3]);
	double dx = v[0] - v[2], dy = v[1] - v[3];
	bool near = dx < TOL && -dx < TOL && dy < TOL && -dy < TOL;
	sym_assert((a == b) == near, "points are equal exactly when both coordinates are");
	sym_assert((b == a) == near, "symmetric");
	sym_assert((a - b).x.value() == dx && (a - b).y.value() == dy, "vector between points");
	sym_assert((a + b).x.value() == v[0] + v[2] && (a + b).y.value() == v[1] + v[3], "sum of points");
	Point m = mid(a, b);
	sym_assert(m.x.value() * 2 == v[0] + v[2] && m.y.value() * 2 == v[1] + v[3], "mid point");
	sym_assert(coord(a, H).value() == v[0] && coord(a, V).value() == v[1], "coordinate along a view axis");
	Point s = a * 2;
	sym_assert(s.x.value() == 2 * v[0] && s.y.value() == 2 * v[1], "scaled point");
}
