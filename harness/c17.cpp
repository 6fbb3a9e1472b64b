// C17: the mesh of one interval between two policies.
#include "mesh.hpp"
using namespace domain;

struct Bench {
	Timepoint* t = Caretaker::singleton().get_history_root();
	GlobalParams g; std::shared_ptr<MeshlinePolicy> a, b; std::shared_ptr<Interval> i;
	double ca, cb, dmax; int ka, kb; bool uneven = false;
	static MP::Policy pol(int k) { return k == 0 ? MP::Policy::ONELINE : k == 1 ? MP::Policy::HALFS : MP::Policy::THIRDS; }
	static MP::Normal nor(int k) { return k == 2 ? MP::Normal::MIN : k == 3 ? MP::Normal::MAX : MP::Normal::NONE; }
	Bench(double ca, double cb, int ka, int kb, double dmax, double smoothness, size_t lmin) : g(params(dmax, smoothness, lmin), t), ca(ca), cb(cb), dmax(dmax), ka(ka), kb(kb) {
		a = std::make_shared<MeshlinePolicy>(X, pol(ka), nor(ka), &g, ca, t); b = std::make_shared<MeshlinePolicy>(X, pol(kb), nor(kb), &g, cb, t);
		Caretaker::singleton().take_care_of(a); Caretaker::singleton().take_care_of(b);
		i = std::make_shared<Interval>(a.get(), b.get(), X, &g, t); Caretaker::singleton().take_care_of(i);
	}
	// share of d between a policy and its first line inside the interval, in sixths
	int share(int k, bool before) { return k == 0 ? 0 : k == 1 ? 3 : (k == 3) == before ? 4 : 2; }
	// Is there a number of gaps growing by one factor between 1 and the smoothness that fill the space exactly?
	bool fits(double space, double d, double smoothness, size_t lmin) {
		double sum = 0, gap = d; for(size_t n = 1; n * d <= space + 1e-6; ++n) { gap = gap * smoothness; if(gap > dmax) gap = dmax; sum += gap; if(n >= lmin && sum >= space - 1e-6) return true; }
		return false;
	}
	void check(double smoothness, size_t lmin, bool solved = true) {
		auto ms = i->mesh(); std::vector<double> x; for(auto& m : ms) x.push_back(m->coord.value());
		double da = a->get_current_state().d, db = b->get_current_state().d, mid = (ca + cb) / 2, h = (cb - ca) / 2;
		sym_assert(da > 0 && db > 0, "distances stay positive");
		sym_assert(at_most(da, dmax) && at_most(db, dmax), "the distance at a policy does not exceed dmax");
		sym_assert(at_most(da, h) && at_most(db, h), "the distance at a policy does not exceed half the interval");
		// positions around each policy, policy coordinate included when it is itself a line
		std::vector<double> l, r; bool seen = false;
		size_t at = ms.size();
		for(size_t k = 0; k < ms.size(); ++k) if(x[k] == mid) { sym_assert(!seen, "one line in the middle"); seen = true; at = k; }
		sym_assert(seen, "there is a line in the middle");
		if(!seen) sym_stop();
		for(size_t k = 0; k < ms.size(); ++k) sym_assert(ms[k]->interval == i.get() && ms[k]->policy == (k < at ? a.get() : k > at ? b.get() : nullptr), "each line knows its interval and the policy of its side");
		for(size_t k = 1; k < x.size(); ++k) { sym_assert(x[k] - x[k - 1] > equality_tolerance / 2, "lines are ordered and apart"); sym_assert(at_most(x[k] - x[k - 1], dmax), "no two lines are more than dmax apart"); }
		sym_assert(x.front() > ca && x.back() < cb, "lines lie inside the interval");
		if(ka) sym_assert(near((x.front() - ca) * 6, da * share(ka, true)), "the first line is at the policy's share of its distance"); 
		if(kb) sym_assert(near((cb - x.back()) * 6, db * share(kb, false)), "the last line is at the policy's share of its distance");
		// growth towards the middle
		auto side = [&](double start, double d, std::vector<double> const& p) {
			double gap = d, from = start;
			for(size_t k = 0; k < p.size(); ++k) { double w = p[k] > from ? p[k] - from : from - p[k]; sym_assert(at_most(w, gap * smoothness), "no gap exceeds the previous one by more than the smoothness"); sym_assert(at_most(w, dmax), "no gap exceeds dmax"); gap = w; from = p[k]; }
		};
		std::vector<double> pa, pb;
		for(size_t k = ka ? 1 : 0; k <= at; ++k) pa.push_back(x[k]);
		for(size_t k = x.size() - (kb ? 1 : 0); k-- > at;) pb.push_back(x[k]);
		side(ka ? x.front() : ca, da, pa); side(kb ? x.back() : cb, db, pb);
		if(solved && at > 0 && at + 1 < x.size()) {
			double w = x[at] - x[at - 1], v = x[at + 1] - x[at];
			if(!fits(ka ? mid - x.front() : h, da, smoothness, lmin) || !fits(kb ? x.back() - mid : h, db, smoothness, lmin)) sym_tag("no-factor"); else if(uneven) sym_tag("uneven");
			sym_assert(at_most(w, v * smoothness) & at_most(v, w * smoothness), "the two cells in the middle respect the smoothness"); sym_tag("");
		}
		sym_assert(pa.size() >= lmin && pb.size() >= lmin, "each side has at least lmin gaps");
		if(pa.size() > lmin) sym_cover("more lines than required");
	}
};
static void solved(double smoothness, size_t lmin, int64_t hlo, int64_t hhi, int64_t mlo, int64_t mhi, bool smooth, int unit = 12) {
	double c = sym_grid("c", -100, 100, 0) * 3, dmax = (smooth ? (double) sym_pick("dmax", mlo, mhi) : sym_grid("dmax", mlo, mhi, 0)) * 12, h = sym_grid("h", hlo, hhi, 0) * unit;
	int ka = (int) sym_pick("ka", 0, 3), kb = (int) sym_pick("kb", 0, 3);
	Bench n(c, c + 2 * h, ka, kb, dmax, smoothness, lmin);
	n.i->auto_solve_d(); if(smooth) n.i->auto_solve_smoothness();
	n.check(smoothness, lmin, smooth);
}
SYM_CASE(solve_d_x2, 0, "any pair of policies, smoothness 2, lmin 1, dmax in 12..48, half interval up to 12 x dmax") { solved(2, 1, 4, 12, 1, 4, false); }
SYM_CASE(solve_x1, 0, "any pair of policies, smoothness 1, lmin 2, d and smoothness solved") { solved(1, 2, 10, 48, 1, 2, true, 3); }
SYM_CASE(solve_x2, 0, "any pair of policies, smoothness 2, lmin 2, d and smoothness solved") { solved(2, 2, 10, 48, 1, 2, true, 3); }
// Half intervals shorter than the distance wanted, or too short for lmin lines: the distance has to shrink.
static void tight(double smoothness, size_t lmin, int hmax) {
	double c = sym_grid("c", -100, 100, 0) * 3, h = (double) sym_pick("h", 1, hmax) * 3;
	int ka = (int) sym_pick("ka", 0, 3), kb = (int) sym_pick("kb", 0, 3);
	Bench n(c, c + 2 * h, ka, kb, 12, smoothness, lmin);
	n.i->auto_solve_d(); n.i->auto_solve_smoothness(); n.check(smoothness, lmin);
}
SYM_CASE(tight_x2, 0, "any pair of policies at any place, dmax 12, half interval 3..27, smoothness 2, lmin 2") { tight(2, 2, 9); }
SYM_CASE(tight_one, 0, "any pair of policies at any place, dmax 12, half interval 3..27, smoothness 2, lmin 1") { tight(2, 1, 9); }
SYM_CASE(tight_x15, 0, "any pair of policies at any place, dmax 12, half interval 3..18, smoothness 1.5, lmin 3") { tight(1.5, 3, 6); }
SYM_CASE(tight_x1, 0, "any pair of policies at any place, dmax 12, half interval 3..18, smoothness 1, lmin 4") { tight(1, 4, 6); }
// A policy whose distance an interval on its other side has already reduced.
static void uneven(double smoothness, size_t lmin, int hmax) {
	double c = sym_grid("c", -100, 100, 0) * 3, h = (double) sym_pick("h", 4, hmax) * 3;
	int ka = (int) sym_pick("ka", 0, 3), kb = (int) sym_pick("kb", 0, 3); bool first = sym_bool("first"); int q = (int) sym_pick("reduced", 1, 3);
	Bench n(c, c + 2 * h, ka, kb, 12, smoothness, lmin);
	auto& p = first ? n.a : n.b; auto s = p->get_current_state(); s.d = 1.5 * q; p->set_next_state(s);
	// what each side could grow to at the middle bounds both
	double bound = 12, both[] = { n.a->get_current_state().d, n.b->get_current_state().d };
	for(int k = 0; k < 2; ++k) { double space = h - both[k] * n.share(k ? kb : ka, !k) / 6, sum = 0, gap = both[k]; while(sum < space) { gap = gap * smoothness; if(gap > 12) gap = 12; sum += gap; } if(gap * smoothness < bound) bound = gap * smoothness; }
	n.i->auto_solve_d(); sym_assert(near(n.i->get_current_state().dmax, bound), "the limit within the interval is the lowest of dmax and what either side grows to in the middle"); n.i->auto_solve_smoothness();
	double from = c; auto ms = n.i->mesh(); for(auto& m : ms) { double x = m->coord.value(); sym_assert(at_most(x - from, bound), "no gap exceeds what either side could grow to in the middle"); from = x; }
	sym_assert(at_most(n.a->get_current_state().d, bound) & at_most(n.b->get_current_state().d, bound), "no distance exceeds what either side could grow to in the middle");
	n.uneven = true; n.check(smoothness, lmin);
}
SYM_CASE(uneven_x2, 0, "any pair of policies at any place, the distance of either reduced to 1.5, 3 or 4.5, dmax 12, half interval 12..36, smoothness 2, lmin 2") { uneven(2, 2, 12); }
SYM_CASE(uneven_x15, 0, "the same, smoothness 1.5, lmin 1") { uneven(1.5, 1, 12); }
// Distances that are no sum of powers of two: what rounding leaves of a sum is no cell.
static void decimal(double unit, int lmax) {
	double c = sym_grid("c", -8, 8, 0), l = sym_grid("l", 2, lmax, 0), dmax = (double) sym_pick("dmax", 1, 3) * unit; int ka = (int) sym_pick("ka", 0, 1), kb = (int) sym_pick("kb", 0, 1);
	Bench n(c, c + l, ka, kb, dmax, 1, 2); n.i->auto_solve_d(); n.i->auto_solve_smoothness(); n.check(1, 2, false);
}
SYM_CASE(decimal_1, 0, "pairs of lines and halves at any place of |k| <= 8, smoothness 1, dmax in 0.1 0.2 0.3, length any integer up to 8") { decimal(0.1, 8); }
