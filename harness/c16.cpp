// C16: the lines that fill one half of an interval.
#include "mesh.hpp"
using namespace domain;

// Lengths are k/8. smoothness is picked (one path family per value), the rest is symbolic.
static void filling(double smoothness, int64_t dlo, int64_t dhi, int64_t mlo, int64_t mhi, int64_t smax) {
	double d = sym_grid("d", dlo, dhi, -3), dmax = sym_grid("dmax", mlo, mhi, -3), s = sym_grid("s", -8, smax, -3);
	auto ls = find_ls(d, smoothness, dmax, s);
	double start = d < dmax ? d : dmax;
	sym_assert(ls.empty() == !(s > 0), "there are lines exactly when there is space to fill");
	double before = 0, gap = start;
	for(size_t i = 0; i < ls.size(); ++i) {
		double l = ls[i].value(), g = l - before;
		sym_assert(g > 0, "lines follow each other");
		sym_assert(at_most(g, dmax), "no two lines are more than dmax apart");
		sym_assert(at_most(g, gap * smoothness), "no gap exceeds the previous one by more than the smoothness");
		sym_assert(at_most(gap, g), "gaps do not shrink towards the middle");
		sym_assert(near(g, gap * smoothness) || near(g, dmax), "gaps grow by the smoothness until they reach dmax");
		sym_assert(before < s, "no line is placed once the space is filled");
		before = l; gap = g;
	}
	if(!ls.empty()) {
		sym_assert(before >= s, "the lines fill all the space");
		if(ls.size() > 1) sym_cover("several lines");
		if(start * smoothness > dmax) sym_cover("dmax limits");
	}
	sym_assert(is_ls_valid_for_dmax_lmin_smoothness(ls, start, smoothness, dmax, ls.size()) == !ls.empty(), "a non empty filling is valid for its own number of lines");
	sym_assert(!is_ls_valid_for_dmax_lmin_smoothness(ls, start, smoothness, dmax, ls.size() + 1), "no filling is valid for more lines than it has");
}
SYM_CASE(fill_x2, 0, "smoothness 2, d and dmax in k/8 <= 4, space <= 8") { filling(2, 4, 32, 8, 32, 64); }
SYM_CASE(fill_x15, 0, "smoothness 1.5, d and dmax in k/8 <= 4, space <= 8") { filling(1.5, 4, 32, 8, 32, 64); }
SYM_CASE(fill_x1, 0, "smoothness 1, d and dmax in k/8 <= 4, space <= 8") { filling(1, 8, 32, 8, 32, 64); }
SYM_CASE(fill_x125, 1, "smoothness 1.25, d and dmax in k/8 <= 4, space <= 8") { filling(1.25, 4, 32, 8, 32, 64); }
SYM_CASE(fill_deep, 1, "smoothness 2, d in k/8 from 1/8, dmax in k/8 <= 8, space <= 24") { filling(2, 1, 32, 4, 64, 192); }

// Distances that are no sum of powers of two: their sums are rounded, and what rounding leaves is no gap to fill.
static void rounded(double unit, double smoothness, double dmax, double hi) {
	double s = sym_double("s"); sym_assume(s >= 0.5); sym_assume(s <= hi);
	double d = (double) sym_pick("d", 1, 3) * unit; auto ls = find_ls(d, smoothness, dmax, s);
	sym_assert(!ls.empty(), "there are lines where there is space to fill"); if(ls.empty()) sym_stop();
	sym_assert(ls.back().value() >= s - 2 * equality_tolerance, "the lines fill all the space");
	double before = ls.size() > 1 ? ls[ls.size() - 2].value() : 0;
	sym_assert(s - before > equality_tolerance / 2, "the last line fills more than what rounding left");
	sym_assert(is_ls_valid_for_dmax_lmin_smoothness(ls, d, smoothness, dmax, ls.size()), "the filling is valid for its own number of lines");
}
SYM_CASE(rounded_x1, 0, "smoothness 1, dmax 0.9, d in 0.3 0.6 0.9, space any double in 0.5..20") { rounded(0.3, 1, 0.9, 20); }
SYM_CASE(rounded_x2, 0, "smoothness 2, dmax 0.7, d in 0.1 0.2 0.3, space any double in 0.5..20") { rounded(0.1, 2, 0.7, 20); }
SYM_CASE(rounded_x13, 0, "smoothness 1.3, dmax 1.1, d in 0.1 0.2 0.3, space any double in 0.5..20") { rounded(0.1, 1.3, 1.1, 20); }

// The documented criteria, on any increasing or not list of n lines.
static void valid(int n, double smoothness) {
	double d = sym_grid("d", 0, 64, -3), dmax = sym_grid("dmax", 1, 64, -3); size_t lmin = (size_t) sym_int("lmin", 0, 5);
	std::vector<Coord> ls; std::vector<double> v;
	for(int i = 0; i < n; ++i) { v.push_back(sym_grid(("l" + std::to_string(i)).c_str(), 0, 256, -3)); ls.push_back(v.back()); }
	bool ok = n > 0 && (size_t) n >= lmin && !(d > dmax);
	double before = 0, gap = d;
	for(int i = 0; i < n; ++i) { double g = v[i] - before; ok = ok & !(g > gap * smoothness) & !(g > dmax); before = v[i]; gap = g; }
	sym_assert(is_ls_valid_for_dmax_lmin_smoothness(ls, d, smoothness, dmax, lmin) == ok, "lines are valid exactly when enough of them respect d, dmax and smoothness");
	if(ok) sym_cover("valid");
}
SYM_CASE(valid0, 0, "no line, any d, dmax, lmin") { double d = sym_grid("d", 0, 64, -3); sym_assert(!is_ls_valid_for_dmax_lmin_smoothness({}, d, 2, 8, (size_t) sym_int("lmin", 0, 3)), "no line is never valid"); }
SYM_CASE(valid1, 0, "any 1 line, d, dmax in k/8, lmin <= 5, smoothness 1.5") { valid(1, 1.5); }
SYM_CASE(valid2, 0, "any 2 lines, d, dmax in k/8, lmin <= 5, smoothness 2") { valid(2, 2); }
SYM_CASE(valid3, 0, "any 3 lines, d, dmax in k/8, lmin <= 5, smoothness 1.25") { valid(3, 1.25); }
SYM_CASE(valid4, 0, "any 4 lines, d, dmax in k/8, lmin <= 5, smoothness 2") { valid(4, 2); }

static Interval::Side make_side(MeshlinePolicy* p, int n, double smoothness, char const* tag, double& last) {
	Interval::Side s(p, 2, smoothness, Coord(1000), [](double d) { return d; });
	double before = 0; last = -1;
	for(int i = 0; i < n; ++i) { double l = sym_grid((std::string(tag) + std::to_string(i)).c_str(), 0, 256, -3); s.ls.push_back(l); last = l - before; before = l; }
	return s;
}
SYM_CASE(limit, 0, "two sides of 0 to 3 lines in k/8, any dmax, smoothness 2 and 1.5") {
	Timepoint* t = Caretaker::singleton().get_history_root(); GlobalParams g(params(4, 2, 2), t);
	MeshlinePolicy p(X, MP::Policy::HALFS, MP::Normal::NONE, &g, 0, t);
	int na = (int) sym_pick("na", 0, 3), nb = (int) sym_pick("nb", 0, 3); double dmax = sym_grid("dmax", 1, 256, -3);
	double la, lb; auto a = make_side(&p, na, 2, "a", la), b = make_side(&p, nb, 1.5, "b", lb);
	double wa = na && la * 2 < dmax ? la * 2 : dmax, wb = nb && lb * 1.5 < dmax ? lb * 1.5 : dmax;
	sym_assert(find_dmax(a, dmax) == wa, "a side allows its last gap times the smoothness, at most dmax");
	sym_assert(find_dmax(b, dmax) == wb, "the other side too");
	sym_assert(find_dmax(a, b, dmax) == (wa < wb ? wa : wb), "the stricter side limits both");
}
