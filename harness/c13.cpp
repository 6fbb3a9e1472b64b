// C13: policies too close to each other are merged.
#include "mesh.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
using namespace domain;

struct Pol { double c; int k; }; // k: 0 oneline 1 halfs 2 thirds min 3 thirds max
static MP::Policy pol(int k) { return k == 0 ? MP::Policy::ONELINE : k == 1 ? MP::Policy::HALFS : MP::Policy::THIRDS; }
static MP::Normal nor(int k) { return k == 2 ? MP::Normal::MIN : k == 3 ? MP::Normal::MAX : MP::Normal::NONE; }
struct Bench {
	Timepoint* t = Caretaker::singleton().get_history_root();
	GlobalParams g; std::shared_ptr<ConflictManager> cm; std::shared_ptr<MeshlinePolicyManager> m;
	explicit Bench(double limit) : g(params(12, 2, 2, limit), t), cm(std::make_shared<ConflictManager>(t)), m(std::make_shared<MeshlinePolicyManager>(&g, t)) {
		m->init(cm.get()); cm->init(m.get()); Caretaker::singleton().take_care_of(m); Caretaker::singleton().take_care_of(cm);
	}
};
static void merging(Axis axis, std::vector<Pol> const& ps, std::vector<int> const& enabled, double limit, int linked = 0) {
	Bench n(limit);
	std::vector<MeshlinePolicy*> mp; std::vector<Pol> all = ps; std::vector<int> on = enabled;
	for(size_t i = 0; i < ps.size(); ++i) mp.push_back(n.m->add_meshline_policy({}, axis, pol(ps[i].k), nor(ps[i].k), ps[i].c, enabled[i]));
	// a policy may already be linked to a conflict of another kind
	ConflictColinearEdges other(axis, nullptr, nullptr, n.t);
	if(linked) { auto s = mp[linked - 1]->get_current_state(); s.conflicts.push_back(&other); mp[linked - 1]->set_next_state(s); }
	Timepoint* before = Caretaker::singleton().get_current_timepoint();
	n.m->detect_and_solve_too_close_meshline_policies(axis);
	auto const& cs = n.cm->get_too_close_meshline_policies(axis);
	auto const& after = n.m->get_meshline_policies(axis);
	sym_assert(after.size() == ps.size() + cs.size(), "every merge adds one policy, nothing else does");
	sym_assert(cs.size() < ps.size() || ps.empty(), "there are fewer merges than policies");
	if(after.size() != ps.size() + cs.size()) sym_stop();
	auto id = [&](MeshlinePolicy const* p) { for(size_t i = 0; i < after.size(); ++i) if(after[i].get() == p) return i; return after.size(); };
	for(size_t i = 0; i < ps.size(); ++i) sym_assert(after[i].get() == mp[i], "policies are kept");
	// gap between closest enabled policies
	auto closest = [&]() { double best = 1e300; for(size_t i = 0; i < all.size(); ++i) for(size_t j = 0; j < i; ++j) if(on[i] && on[j]) { double d = all[i].c - all[j].c; d = d < 0 ? -d : d; best = d < best ? d : best; } return best; };
	for(size_t k = 0; k < cs.size(); ++k) {
		auto const& c = *cs[k]; size_t a = id(c.meshline_policies[0]), b = id(c.meshline_policies[1]); auto const& s = c.get_current_state();
		sym_assert(a < all.size() && b < all.size() && a != b, "only existing policies are merged"); if(!(a < all.size() && b < all.size() && a != b)) sym_stop();
		sym_assert(on[a] && on[b], "only enabled policies are merged");
		double d = all[a].c - all[b].c; d = d < 0 ? -d : d;
		sym_assert(d <= limit, "merged policies are not farther than the limit");
		sym_assert(d == closest(), "the closest policies are merged first");
		int ka = all[a].k, kb = all[b].k; double mid = (all[a].c + all[b].c) * 0.5;
		Pol want = !ka && !kb ? Pol { mid, 0 } : !ka ? Pol { all[a].c, 0 } : !kb ? Pol { all[b].c, 0 } : ka == kb && ka != 1 ? Pol { mid, ka } : Pol { mid, 1 };
		size_t r = ps.size() + k; auto const& p = *after[r]; auto const& sp = p.get_current_state();
		sym_assert(sp.policy == pol(want.k) && sp.normal == nor(want.k), "a line dominates, thirds of the same side stay thirds, anything else gives halves");
		sym_assert(p.coord.value() == want.c, "a line keeps its place, other policies meet in the middle");
		sym_assert(p.axis == axis && s.is_solved && s.meshline_policy == &p, "the conflict knows its solution");
		on[a] = on[b] = false; all.push_back(want); on.push_back(true);
	}
	sym_assert(closest() > limit, "no two policies left are within the limit");
	for(size_t i = 0; i < after.size(); ++i) sym_assert(after[i]->get_current_state().is_enabled == on[i], "merged policies are disabled, others not");
	for(auto x : AllAxis) if(x != axis) sym_assert(n.cm->get_too_close_meshline_policies(x).empty() && n.m->get_meshline_policies(x).empty(), "other axes are left alone");
	if(!cs.empty()) sym_cover("merged");
	if(cs.size() > 1) sym_cover("merged twice");
	Caretaker::singleton().go_without_remembering(before);
	for(size_t i = 0; i < ps.size(); ++i) sym_assert(mp[i]->get_current_state().is_enabled == enabled[i], "going back enables the policies again");
	sym_assert(n.m->get_meshline_policies(axis).size() == ps.size() && n.cm->get_too_close_meshline_policies(axis).empty(), "going back drops the merges");
}
static std::vector<Pol> any(int n, int64_t r, std::vector<int>& en, int kinds) {
	std::vector<Pol> ps; static int const few[] = { 0, 2, 3, 1 };
	for(int i = 0; i < n; ++i) { std::string k = std::to_string(i); double c = sym_grid(("c" + k).c_str(), -r, r, 0); int kind = few[sym_pick(("k" + k).c_str(), 0, kinds - 1)]; ps.push_back({ c, kind }); en.push_back(true); }
	return ps;
}
SYM_CASE(two, 0, "2 policies of any kind anywhere (|k| <= 1000), on any axis, enabled or not, linked to a conflict or not, any limit") {
	std::vector<int> en; auto ps = any(2, 1000, en, 4); en[0] = sym_pick("e0", 0, 1); en[1] = sym_pick("e1", 0, 1); double limit = sym_grid("limit", 0, 500, -1);
	int linked = (int) sym_pick("linked", 0, 2); merging((Axis) sym_pick("axis", 0, 2), ps, en, limit, linked);
}
SYM_CASE(three, 0, "3 policies of any kind anywhere (|k| <= 1000), limit 3.5, one of them maybe disabled") {
	std::vector<int> en; auto ps = any(3, 1000, en, 4); en[1] = sym_pick("e1", 0, 1); merging(Y, ps, en, 3.5);
}
SYM_CASE(four, 1, "4 policies of any kind anywhere (|k| <= 1000), limit 3.5") { std::vector<int> en; auto ps = any(4, 1000, en, 3); merging(Z, ps, en, 3.5); }
SYM_CASE(cluster, 0, "a row of 4 policies 0 to 3 apart, of any kind, limit 2") {
	std::vector<Pol> ps; std::vector<int> en(4, true); double c = sym_grid("c", -1000, 1000, 0);
	for(int i = 0; i < 4; ++i) { std::string k = std::to_string(i); if(i) c += sym_pick(("g" + k).c_str(), i == 1 ? 1 : 0, 3); ps.push_back({ c, (int) sym_pick(("k" + k).c_str(), 0, i == 3 ? 1 : 2) }); }
	std::swap(ps[0], ps[2]); merging(X, ps, en, 2);
}
SYM_CASE(cluster5, 0, "a row of 5 policies 1 to 3 apart, of three kinds, limit 2") {
	std::vector<Pol> ps; std::vector<int> en(5, true); double c = sym_grid("c", -1000, 1000, 0);
	for(int i = 0; i < 5; ++i) { std::string k = std::to_string(i); if(i) c += sym_pick(("g" + k).c_str(), 1, 3); ps.push_back({ c, (int) sym_pick(("k" + k).c_str(), i > 2 ? 2 : 1, 3) }); }
	std::swap(ps[0], ps[4]); merging(X, ps, en, 2);
}
// Long chains: as many merges as it takes.
SYM_CASE(chain, 0, "a row of 6 to 8 policies 1 or 2 apart, kinds alternating, limit 2 or 3") {
	int m = (int) sym_pick("m", 6, 8); std::vector<Pol> ps; std::vector<int> en(m, true); double c = sym_grid("c", -1000, 1000, 0);
	for(int i = 0; i < m; ++i) { std::string k = std::to_string(i); if(i) c += i < 6 ? (double) sym_pick(("g" + k).c_str(), 1, 2) : 1; ps.push_back({ c, 1 + i % 3 }); }
	std::swap(ps[0], ps[m - 1]); merging(X, ps, en, (double) sym_pick("limit", 2, 3));
}
SYM_CASE(closest, 0, "the closest of 4 policies anywhere, enabled or not, any limit") {
	Bench n(1); std::vector<int64_t> c; std::vector<int> on; std::vector<MeshlinePolicy*> v;
	for(int i = 0; i < 4; ++i) { std::string k = std::to_string(i); c.push_back(sym_int(("c" + k).c_str(), -1000, 1000)); on.push_back(sym_pick(("e" + k).c_str(), 0, 1)); v.push_back(n.m->add_meshline_policy({}, X, MP::Policy::HALFS, MP::Normal::NONE, (double) c[i], on[i])); }
	int64_t limit = sym_int("limit", 0, 3000);
	auto r = detect_closest_meshline_policies(v, (double) limit);
	int64_t best = INT64_MAX; for(int i = 0; i < 4; ++i) for(int j = 0; j < i; ++j) if(on[i] && on[j]) { int64_t d = c[i] - c[j]; d = d < 0 ? -d : d; best = d < best ? d : best; }
	sym_assert(r.has_value() == (best <= limit), "a pair is found exactly when two enabled policies are within the limit");
	if(!r) return;
	int a = -1, b = -1; for(int i = 0; i < 4; ++i) { if((*r)[0] == v[i]) a = i; if((*r)[1] == v[i]) b = i; }
	sym_assert(a >= 0 && b >= 0 && a != b && on[a] && on[b], "two distinct enabled policies"); if(a < 0 || b < 0) return;
	sym_assert(c[b] - c[a] == best, "the closest pair, lower first"); sym_cover("found");
}
