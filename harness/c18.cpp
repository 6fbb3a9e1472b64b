// C18: after any history of work and travel, every tracked object shows the state
// it had at the timepoint travelled to (that of the nearest ancestor that set one).
#include "common.hpp"
#include "utils/state_management.hpp"

template<class S> struct World {
	Caretaker c;
	struct Obj { std::shared_ptr<Originator<S>> o; int init; std::vector<std::pair<int, int64_t>> set; };
	std::vector<Timepoint*> tp; std::vector<int> parent; std::vector<Obj> objs; int cur = 0;
	World() { tp.push_back(c.get_history_root()); parent.push_back(-1); }
	int idx(Timepoint* t) { for(size_t i = 0; i < tp.size(); ++i) if(tp[i] == t) return (int) i; tp.push_back(t); parent.push_back(cur); return (int) tp.size() - 1; }
	void create(int64_t v) {
		Obj o { std::make_shared<Originator<S>>(tp[cur], S(v), c), cur, { { cur, v } } };
		c.take_care_of(o.o); objs.push_back(o);
	}
	void next() { auto* t = c.make_next_timepoint(); int i = idx(t); sym_assert(parent[i] == cur && t->parent() == tp[cur], "new timepoints follow the current one"); cur = i; }
	int64_t want(Obj const& o) {
		for(int t = cur; t >= 0; t = parent[t]) for(auto it = o.set.rbegin(); it != o.set.rend(); ++it) if(it->first == t) return it->second;
		return o.set[0].second; // before its creation an object shows its initial state
	}
	int wantT(Obj const& o) {
		for(int t = cur; t >= 0; t = parent[t]) for(auto const& s : o.set) if(s.first == t) return t;
		return o.init;
	}
	void check(Obj& o) {
		sym_assert((int64_t) o.o->get_current_state() == want(o), "an object shows the state of the nearest ancestor of the timepoint gone to");
		sym_assert(o.o->get_current_timepoint() == tp[wantT(o)], "an object stands at the timepoint its state was set at");
		sym_assert(o.o->get_init_timepoint() == tp[o.init], "the initial timepoint of an object never changes");
	}
	void check_all() { for(auto& o : objs) check(o); sym_assert(c.get_current_timepoint() == tp[cur], "the caretaker stands where it was sent"); }
	void go(int k) { sym_assert(c.go_without_remembering(tp[k]), "travelling to a known timepoint succeeds"); cur = k; }
};
static void program(int len, int maxObjs, bool read) {
	World<int64_t const> w; w.c.set_auto_gc(false);
	w.create(sym_int("v_init_a", -1000, 1000)); w.create(sym_int("v_init_b", -1000, 1000));
	for(int i = 0; i < len; ++i) {
		std::string n = std::to_string(i);
		int op = (int) sym_int(("op" + n).c_str(), 0, read ? 5 : 4);
		if(op == 0 || op == 1) { // one object makes its next state
			auto& o = w.objs[op]; int64_t v = sym_int(("v" + n).c_str(), -1000, 1000);
			o.o->set_next_state(v); w.cur = w.idx(w.c.get_current_timepoint()); o.set.push_back({ w.cur, v });
		} else if(op == 2) { // several objects share the next timepoint
			int64_t v = sym_int(("v" + n).c_str(), -1000, 1000);
			w.next(); for(auto& o : w.objs) { o.o->set_given_or_next_state(v, w.tp[w.cur]); o.set.push_back({ w.cur, v }); }
		} else if(op == 3) { // travel
			w.go((int) sym_pick(("to" + n).c_str(), 0, (int64_t) w.tp.size() - 1));
		} else if(op == 4) { // a new object appears
			if((int) w.objs.size() >= maxObjs) sym_stop();
			w.next(); w.create(sym_int(("v" + n).c_str(), -1000, 1000));
		} else w.check(w.objs[0]); // somebody looks at one object only
	}
	w.check_all();
	for(auto& o : w.objs) {
		auto av = o.o->get_available_states();
		sym_assert(av.size() == o.set.size(), "an object keeps every state it was given");
		for(size_t k = 0; k < av.size(); ++k) sym_assert(av[k].first == w.tp[o.set[k].first] && (int64_t) av[k].second == o.set[k].second, "available states are listed in the order they were set");
	}
}
SYM_CASE(history4, 2, "every program of 4 operations over 2-3 objects, symbolic values, travel to any timepoint") { program(4, 3, false); }
SYM_CASE(reads4, 0, "every program of 4 operations where one object may be looked at in between") { program(4, 2, true); }
SYM_CASE(history5, 1, "every program of 5 operations over 2-3 objects, symbolic values, travel to any timepoint") { program(5, 3, false); }
SYM_CASE(visit_every, 0, "three states on a history of any shape (4 timepoints), then every timepoint is visited") {
	World<int64_t const> w; w.c.set_auto_gc(false);
	w.create(sym_int("v_init", -1000, 1000));
	for(int i = 0; i < 3; ++i) {
		std::string n = std::to_string(i);
		w.go((int) sym_pick(("from" + n).c_str(), 0, i));
		int64_t v = sym_int(("v" + n).c_str(), -1000, 1000);
		if(sym_bool(("set" + n).c_str())) { w.objs[0].o->set_next_state(v); w.cur = w.idx(w.c.get_current_timepoint()); w.objs[0].set.push_back({ w.cur, v }); }
		else w.next();
	}
	for(size_t k = 0; k < w.tp.size(); ++k) { w.go((int) k); w.check_all(); }
}
SYM_CASE(rewrite, 0, "an updatable object is given two states at one timepoint, then one more and travels, symbolic values") {
	World<int64_t> w; w.c.set_auto_gc(false);
	w.create(sym_int("v0", -1000, 1000));
	auto& o = w.objs[0];
	w.next(); int t1 = w.cur; int64_t a = sym_int("a", -1000, 1000), b = sym_int("b", -1000, 1000), c = sym_int("c", -1000, 1000);
	o.o->set_state(w.tp[t1], a); o.o->set_state(w.tp[t1], b); o.set.push_back({ t1, b });
	w.check_all();
	w.next(); o.o->set_state(w.tp[w.cur], c); o.set.push_back({ w.cur, c }); w.check_all();
	w.go((int) sym_pick("to", 0, 2)); w.check_all();
	sym_assert(o.o->get_available_states().size() == 3, "rewriting a state does not add one");
}
SYM_CASE(make_next_state, 0, "symbolic value and travel before") {
	World<int64_t const> w; w.c.set_auto_gc(false);
	w.create(sym_int("v0", -1000, 1000));
	int64_t v = sym_int("v", -1000, 1000);
	w.objs[0].o->set_next_state(v); w.cur = w.idx(w.c.get_current_timepoint()); w.objs[0].set.push_back({ w.cur, v });
	w.go((int) sym_pick("to", 0, 1));
	auto [t, s] = w.objs[0].o->make_next_state();
	sym_assert(s == w.want(w.objs[0]), "the next state starts as a copy of the current one");
	sym_assert(t->parent() == w.tp[w.cur], "the next timepoint follows the current one");
	sym_assert(w.objs[0].o->get_available_states().size() == 2, "making a next state does not set it");
}
SYM_CASE(foreign, 0, "travelling to no timepoint or to one of another history") {
	World<int64_t const> w; w.create(sym_int("v0", -1000, 1000)); w.next();
	Timepoint other; auto& leaf = other.add_child();
	Timepoint* t = sym_bool("null") ? nullptr : &leaf;
	sym_assert(!(sym_bool("remember") ? w.c.go_and_remember(t) : w.c.go_without_remembering(t)), "travelling to an unknown timepoint is refused");
	w.check_all();
}
