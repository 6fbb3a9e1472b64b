// C14: the mesh of one axis from its policies.
#include "mesh.hpp"
#include <algorithm>
using namespace domain;

struct Pol { double c; int k; }; // k: 0 oneline 1 halfs 2 thirds min 3 thirds max
static MP::Policy pol(int k) { return k == 0 ? MP::Policy::ONELINE : k == 1 ? MP::Policy::HALFS : MP::Policy::THIRDS; }
static MP::Normal nor(int k) { return k == 2 ? MP::Normal::MIN : k == 3 ? MP::Normal::MAX : MP::Normal::NONE; }

static void axis_mesh(std::vector<Pol> const& ps, double dmax, double smoothness, size_t lmin, bool disabled_too) {
	Timepoint* t = Caretaker::singleton().get_history_root();
	GlobalParams g(params(dmax, smoothness, lmin), t); ConflictManager cm(t); 
	auto m = std::make_shared<MeshlinePolicyManager>(&g, t); m->init(&cm); cm.init(m.get());
	Caretaker::singleton().take_care_of(m);
	std::vector<MeshlinePolicy*> mp;
	// policies are added out of order, and some disabled ones in between
	for(size_t i = ps.size(); i-- > 0;) { if(disabled_too) m->add_meshline_policy({}, Y, MP::Policy::ONELINE, MP::Normal::NONE, ps[i].c + 1.5, false); mp.insert(mp.begin(), m->add_meshline_policy({}, Y, pol(ps[i].k), nor(ps[i].k), ps[i].c)); }
	m->detect_intervals(Y);
	auto const& is = m->get_intervals(Y);
	sym_assert(is.size() == ps.size() - 1, "there is one interval between each two consecutive enabled policies");
	for(size_t i = 0; i < is.size(); ++i) sym_assert(is[i]->get_current_state().before.meshline_policy == mp[i] && is[i]->get_current_state().after.meshline_policy == mp[i + 1], "intervals join neighbouring policies");
	sym_assert(m->get_intervals(X).empty() && m->get_intervals(Z).empty(), "no interval on axes without policies");
	m->mesh(Y);
	auto const& ms = m->get_meshlines(Y); std::vector<double> x; for(auto& l : ms) x.push_back(l->coord.value());
	for(size_t k = 1; k < x.size(); ++k) { sym_assert(x[k - 1] < x[k], "mesh lines are ordered and distinct"); sym_assert(at_most(x[k] - x[k - 1], dmax), "no two neighbouring mesh lines are more than dmax apart"); }
	for(size_t i = 0; i < ps.size(); ++i) {
		double c = ps[i].c; size_t on = 0; size_t up = 0; while(up < x.size() && x[up] < c) ++up;
		for(double v : x) if(v == c) ++on;
		sym_assert(on == (ps[i].k == 0), "a line lies on a policy's coordinate exactly when it is a one-line policy");
		if(ps[i].k == 0) continue;
		bool l = up > 0, r = up < x.size();
		sym_assert(l == (i > 0) && r == (i + 1 < ps.size()), "a policy has a line on each side where the mesh extends");
		double before = l ? c - x[up - 1] : 0, after = r ? x[up] - c : 0;
		double d = mp[i]->get_current_state().d;
		int sb = ps[i].k == 1 ? 3 : ps[i].k == 2 ? 4 : 2, sa = 6 - sb; // sixths of d below and above the coordinate: MIN has its metal above
		if(l) sym_assert(near(before * 6, d * sb), "the line below a policy is at its share of the distance");
		if(r) sym_assert(near(after * 6, d * sa), "the line above a policy is at its share of the distance");
	}
	sym_assert(m->get_mesh_cell_number() == 0, "no cell while an axis has no line");
	for(size_t i = 0; i < is.size(); ++i) { double mid = (ps[i].c + ps[i + 1].c) / 2; size_t n = 0; for(double v : x) if(v == mid) ++n; sym_assert(n == 1, "each interval has a line in its middle"); }
}
SYM_CASE(two, 0, "2 policies of any kind") {
	double a = sym_grid("a", -100, 100, 0) * 3, h = sym_grid("h", 10, 40, 0) * 3; int ka = (int) sym_pick("ka", 0, 3), kb = (int) sym_pick("kb", 0, 3);
	axis_mesh({ { a, ka }, { a + 2 * h, kb } }, 12, 2, 2, true);
}
SYM_CASE(three, 0, "3 policies of any kind") {
	double h = sym_grid("h", 10, 24, 0) * 3, g = (double) sym_pick("g", 4, 5) * 6; int ka = (int) sym_pick("ka", 0, 3), kb = (int) sym_pick("kb", 0, 3), kc = (int) sym_pick("kc", 0, 3);
	axis_mesh({ { 0, ka }, { 2 * h, kb }, { 2 * h + 2 * g, kc } }, 12, 2, 2, false);
}
SYM_CASE(squeezed, 1, "3 policies of any kind at any place, half intervals 3..42 and 3..27") {
	double h = (double) sym_pick("h", 1, 14) * 3, g = (double) sym_pick("g", 1, 9) * 3, c = sym_grid("c", -10, 10, 0) * 3; int ka = (int) sym_pick("ka", 0, 3), kb = (int) sym_pick("kb", 0, 3), kc = (int) sym_pick("kc", 0, 3);
	axis_mesh({ { c, ka }, { c + 2 * h, kb }, { c + 2 * h + 2 * g, kc } }, 12, 2, 2, false);
}
// Distances settled through a chain of neighbours of very different widths.
SYM_CASE(chain, 0, "4 policies at any place, kinds and gaps (7..10, 12..16, 1..2) free, smoothness 1.3, lmin 1") {
	double c = sym_grid("c", -10, 10, 0), g1 = (double) sym_pick("g1", 7, 10), g2 = (double) sym_pick("g2", 6, 8) * 2, g3 = (double) sym_pick("g3", 1, 2);
	int ka = (int) sym_pick("ka", 0, 1), kb = (int) sym_pick("kb", 1, 3), kc = (int) sym_pick("kc", 0, 3), kd = (int) sym_pick("kd", 1, 2);
	axis_mesh({ { c, ka }, { c + g1, kb }, { c + g1 + g2, kc }, { c + g1 + g2 + g3, kd } }, 12, 1.3, 1, false);
}
// Intervals after merges: merged policies take no part any more.
SYM_CASE(merged, 0, "3 policies of any kind, two of them within the limit or not, at any place") {
	Timepoint* t = Caretaker::singleton().get_history_root();
	GlobalParams g(params(12, 2, 2, 2), t); auto cm = std::make_shared<ConflictManager>(t);
	auto m = std::make_shared<MeshlinePolicyManager>(&g, t); m->init(cm.get()); cm->init(m.get()); Caretaker::singleton().take_care_of(m); Caretaker::singleton().take_care_of(cm);
	double c = sym_grid("c", -100, 100, 0) * 6, gap = (double) sym_pick("gap", 1, 4), far = (double) sym_pick("far", 5, 9) * 6; bool low = sym_pick("low", 0, 1); int k[3]; for(int i = 0; i < 3; ++i) k[i] = (int) sym_pick(("k" + std::to_string(i)).c_str(), 0, 3);
	double x[3] = { c, low ? c + gap : c + far, low ? c + gap + far : c + far + gap };
	for(int i : { 1, 0, 2 }) m->add_meshline_policy({}, Z, pol(k[i]), nor(k[i]), x[i]);
	m->detect_and_solve_too_close_meshline_policies(Z); m->detect_intervals(Z); m->mesh(Z);
	std::vector<MeshlinePolicy*> on; for(auto& p : m->get_meshline_policies(Z)) if(p->get_current_state().is_enabled) on.push_back(p.get());
	std::sort(on.begin(), on.end(), [](auto* a, auto* b) { return a->coord.value() < b->coord.value(); });
	sym_assert(on.size() == (gap <= 2 ? 2u : 3u), "two policies within the limit become one");
	auto const& is = m->get_intervals(Z); sym_assert(is.size() + 1 == on.size(), "there is one interval between each two consecutive enabled policies"); if(is.size() + 1 != on.size()) sym_stop();
	for(size_t i = 0; i < is.size(); ++i) sym_assert(is[i]->get_current_state().before.meshline_policy == on[i] && is[i]->get_current_state().after.meshline_policy == on[i + 1], "intervals join neighbouring enabled policies");
	auto const& ms = m->get_meshlines(Z); for(size_t i = 1; i < ms.size(); ++i) { double d = ms[i]->coord.value() - ms[i - 1]->coord.value(); sym_assert(d > 0 && at_most(d, 12), "mesh lines are ordered, distinct, and at most dmax apart"); }
	for(auto* p : on) { size_t n = 0; for(auto& l : ms) n += l->coord.value() == p->coord.value(); sym_assert(n == (p->get_current_state().policy == MP::Policy::ONELINE), "a line lies on a policy's coordinate exactly when it is a one-line policy"); }
}
SYM_CASE(cells, 0, "the number of cells with 0 to 2 policies on each axis") {
	Timepoint* t = Caretaker::singleton().get_history_root();
	GlobalParams g(params(12, 2, 1), t); ConflictManager cm(t);
	auto m = std::make_shared<MeshlinePolicyManager>(&g, t); m->init(&cm); cm.init(m.get()); Caretaker::singleton().take_care_of(m);
	double c = sym_grid("c", -10, 10, 0); size_t n[3];
	for(int a = 0; a < 3; ++a) { n[a] = (size_t) sym_pick(("n" + std::to_string(a)).c_str(), 0, 2); for(size_t i = 0; i < n[a]; ++i) m->add_meshline_policy({}, (Axis) a, MP::Policy::ONELINE, MP::Normal::NONE, c + 24.0 * (double) i); }
	m->detect_intervals(); m->mesh();
	size_t want = 1;
	for(auto a : AllAxis) {
		size_t lines = m->get_meshlines(a).size();
		sym_assert(lines == (n[a] < 2 ? n[a] : lines) && (n[a] < 2 || lines >= 3), "each axis gets the mesh of its own policies");
		want *= lines;
		sym_assert(m->get_meshline_policies_meshlines(a).size() == n[a], "every enabled policy shows one line");
	}
	sym_assert(m->get_mesh_cell_number() == want, "the size of the mesh is the product of the lines of each axis");
}
