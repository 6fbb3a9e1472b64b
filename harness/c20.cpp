// C20: garbage collection removes exactly the timepoints no one can come back to.
#include "common.hpp"
#include "utils/state_management.hpp"
#include <algorithm>
#include <set>

struct Note : IAnnotation { int v; explicit Note(int v) : v(v) {} };
struct W {
	Caretaker c; std::vector<Timepoint*> tp; std::vector<int> par; std::vector<bool> noted; std::vector<std::pair<int, int64_t>> set;
	std::shared_ptr<Originator<int64_t const>> o; std::set<int> pinned; std::vector<int> hist { 0 }; int cur = 0;
	W(int64_t v0) { c.set_auto_gc(false); tp.push_back(c.get_history_root()); par.push_back(-1); noted.push_back(false); o = std::make_shared<Originator<int64_t const>>(tp[0], v0, c); c.take_care_of(o); set.push_back({ 0, v0 }); }
	void add(std::string n) {
		int64_t v = sym_int(("v" + n).c_str(), -1000, 1000);
		bool s = sym_bool(("set" + n).c_str());
		if(s) o->set_next_state(v); else c.make_next_timepoint();
		tp.push_back(c.get_current_timepoint()); par.push_back(cur); noted.push_back(false); cur = (int) tp.size() - 1;
		if(s) set.push_back({ cur, v });
	}
	bool kept(int t) { // is t an ancestor-or-self of something to keep
		auto up = [&](int k) { for(; k >= 0; k = par[k]) if(k == t) return true; return false; };
		if(up(cur)) return true;
		for(int p : pinned) if(up(p)) return true;
		for(int h : hist) if(up(h)) return true;
		return false;
	}
	void check() {
		auto cl = c.get_history_root()->cluster(true);
		std::set<Timepoint*> alive(cl.begin(), cl.end());
		for(size_t i = 0; i < tp.size(); ++i) {
			if(kept((int) i)) sym_assert(alive.count(tp[i]), "a reachable timepoint survives garbage collection");
			else sym_assert(!alive.count(tp[i]), "an unreachable timepoint is collected");
			if(kept((int) i)) sym_assert((c.get_annotation(tp[i]) != nullptr) == noted[i], "annotations of surviving timepoints survive");
			else sym_assert(!c.get_annotation(tp[i]), "annotations of collected timepoints are dropped");
		}
		size_t n = 0; for(auto& s : set) if(kept(s.first)) ++n;
		sym_assert(o->get_available_states().size() == n, "exactly the states of surviving timepoints are kept");
		for(size_t i = 0; i < tp.size(); ++i) if(kept((int) i)) {
			c.go_without_remembering(tp[i]);
			int64_t want = set[0].second;
			for(int t = (int) i; t >= 0; t = par[t]) { bool f = false; for(auto& s : set) if(s.first == t) { want = s.second; f = true; } if(f) break; }
			sym_assert((int64_t) o->get_current_state() == want, "garbage collection does not change what a surviving timepoint shows");
		}
	}
};
static void collect(int n) {
	W w(sym_int("v_init", -1000, 1000));
	for(int i = 0; i < n; ++i) {
		std::string k = std::to_string(i);
		int from = (int) sym_pick(("from" + k).c_str(), 0, i);
		w.c.go_without_remembering(w.tp[from]); w.cur = from;
		w.add(k);
		int what = (int) sym_int(("what" + k).c_str(), 0, 3);
		if(what == 1) { w.c.pin_current_timepoint(); w.pinned.insert(w.cur); }
		else if(what == 2) { w.c.remember_current_timepoint(); w.hist.push_back(w.cur); }
		else if(what == 3) { w.c.annotate_current_timepoint(std::make_unique<Note>(i)); w.noted[w.cur] = true; }
	}
	int last = (int) sym_pick("last", 0, n); w.c.go_without_remembering(w.tp[last]); w.cur = last;
	w.c.garbage_collector();
	w.check();
}
SYM_CASE(collect2, 2, "any history of 3 timepoints, each pinned, remembered, annotated or neither, any current one") { collect(2); }
SYM_CASE(collect3, 1, "any history of 4 timepoints, each pinned, remembered, annotated or neither, any current one") { collect(3); }
SYM_CASE(shape4, 0, "any shape of a history of 5 timepoints with one pinned and one current") {
	W w(sym_int("v_init", -1000, 1000));
	for(int i = 0; i < 4; ++i) {
		std::string k = std::to_string(i);
		int from = (int) sym_pick(("from" + k).c_str(), 0, i);
		w.c.go_without_remembering(w.tp[from]); w.cur = from;
		int64_t v = sym_int(("v" + k).c_str(), -1000, 1000);
		w.o->set_next_state(v); w.tp.push_back(w.c.get_current_timepoint()); w.par.push_back(w.cur); w.noted.push_back(false); w.cur = i + 1; w.set.push_back({ i + 1, v });
	}
	int pin = (int) sym_pick("pin", 0, 4), last = (int) sym_pick("last", 0, 4);
	w.c.go_without_remembering(w.tp[pin]); w.cur = pin; w.c.pin_current_timepoint(); w.pinned.insert(pin);
	w.c.go_without_remembering(w.tp[last]); w.cur = last;
	w.c.garbage_collector();
	w.check();
}
SYM_CASE(pins, 0, "two branches pinned in any order, any of them unpinned, automatic collection on") {
	Caretaker c; auto* r = c.get_history_root();
	std::vector<Timepoint*> t;
	for(int i = 0; i < 2; ++i) { c.go_without_remembering(r); c.make_next_timepoint(); t.push_back(c.get_current_timepoint()); c.pin_current_timepoint(); if(sym_bool(i ? "again1" : "again0")) c.pin_current_timepoint(); }
	c.go_without_remembering(r);
	sym_assert(c.get_pinned_timepoints().size() == 2, "a timepoint is pinned once");
	int k = (int) sym_pick("unpinned", 0, 2);
	if(k < 2) c.unpin(t[k]);
	auto cl = r->cluster();
	for(int i = 0; i < 2; ++i) {
		bool alive = false; for(auto* x : cl) if(x == t[i]) alive = true;
		sym_assert(alive == (i != k), "exactly the unpinned branch is collected");
	}
}
SYM_CASE(repinned, 0, "any shape of a history of 4 timepoints, any 4 pinnings and unpinnings, automatic collection on, then one more") {
	Caretaker c; std::vector<Timepoint*> t { c.get_history_root() }; std::vector<int> par { -1 };
	c.set_auto_gc(false); for(int i = 1; i < 4; ++i) { int from = (int) sym_pick(("from" + std::to_string(i)).c_str(), 0, i - 1); c.go_without_remembering(t[(size_t) from]); t.push_back(c.make_next_timepoint()); par.push_back(from); }
	std::vector<int> pinned; bool gone[4] = {}; auto kept = [&](int k, int cur) { for(int p : { cur, pinned.size() > 0 ? pinned[0] : 0, pinned.size() > 1 ? pinned[1] : 0, pinned.size() > 2 ? pinned[2] : 0, pinned.size() > 3 ? pinned[3] : 0 }) for(; p >= 0; p = par[(size_t) p]) if(p == k) return true; return false; };
	c.set_auto_gc(true);
	for(int i = 0; i < 4; ++i) {
		int k = (int) sym_pick(("at" + std::to_string(i)).c_str(), 0, 3); if(gone[k]) sym_stop(); c.go_without_remembering(t[(size_t) k]); bool un = i > 1 && sym_pick(("un" + std::to_string(i)).c_str(), 0, 1);
		if(un) { std::erase(pinned, k); c.go_without_remembering(t[0]); c.unpin(t[(size_t) k]); for(int j = 0; j < 4; ++j) gone[j] = gone[j] || !kept(j, 0); }
		else { if(std::find(pinned.begin(), pinned.end(), k) == pinned.end()) pinned.push_back(k); c.pin_current_timepoint(); }
		std::vector<Timepoint*> want; for(int p : pinned) want.push_back(t[(size_t) p]); sym_assert(c.get_pinned_timepoints() == want, "exactly what was pinned and not unpinned is pinned, each once");
		auto cl = c.get_history_root()->cluster(true); for(int j = 0; j < 4; ++j) sym_assert((std::find(cl.begin(), cl.end(), t[(size_t) j]) != cl.end()) == !gone[j], "exactly what leads to nothing pinned is collected");
	}
}
SYM_CASE(expired, 0, "objects that no longer exist are forgotten, any of two, before or after the work") {
	Caretaker c; auto a = std::make_shared<Originator<int const>>(c.get_history_root(), 1, c), b = std::make_shared<Originator<int const>>(c.get_history_root(), 2, c);
	c.take_care_of(a); c.take_care_of(b);
	a->set_next_state(10); c.remember_current_timepoint(); b->set_next_state(20); c.remember_current_timepoint();
	bool da = sym_bool("drop_a"), db = sym_bool("drop_b");
	if(da) a.reset(); if(db) b.reset();
	c.garbage_collector();
	int n = (int) sym_int("n", 1, 2); c.undo(n);
	if(!da) sym_assert(a->get_current_state() == (n == 2 ? 1 : 10), "the remaining object follows");
	if(!db) sym_assert(b->get_current_state() == 2, "the other remaining object follows");
}
SYM_CASE(reset, 0, "any history of 3 timepoints, pinned or remembered, then reset") {
	W w(5);
	for(int i = 0; i < 2; ++i) {
		std::string k = std::to_string(i);
		int from = (int) sym_pick(("from" + k).c_str(), 0, i); w.c.go_without_remembering(w.tp[from]); w.cur = from;
		w.add(k);
		if(sym_bool(("pin" + k).c_str())) w.c.pin_current_timepoint();
		if(sym_bool(("rem" + k).c_str())) w.c.remember_current_timepoint();
	}
	if(sym_bool("undo")) w.c.undo();
	w.o.reset();
	w.c.reset();
	sym_assert(w.c.get_current_timepoint() == w.c.get_history_root() && w.c.get_history_root()->is_leaf(), "reset leaves only the root timepoint");
	sym_assert(!w.c.can_undo() && !w.c.can_redo() && w.c.get_pinned_timepoints().empty(), "reset leaves nothing to undo, redo or unpin");
}
