// C19: undo and redo walk a linear history of remembered timepoints.
#include "common.hpp"
#include "utils/state_management.hpp"

struct Model { // reference: a list of remembered timepoints and a position in it
	std::vector<int> hist { 0 }; int cur = 0, pos = -1; // pos -1: not browsing
	int room_undo() const { return pos >= 0 ? pos : hist.back() == cur ? (int) hist.size() - 1 : (int) hist.size(); }
	int room_redo() const { return pos >= 0 ? (int) hist.size() - 1 - pos : 0; }
	void undo(int n) {
		if(n < 1 || n > room_undo()) return;
		int p = pos >= 0 ? pos - n : (hist.back() == cur ? (int) hist.size() - 1 - n : (int) hist.size() - n);
		pos = p == (int) hist.size() - 1 ? -1 : p; cur = hist[p];
	}
	void redo(int n) {
		if(n < 1 || n > room_redo()) return;
		int p = pos + n; pos = p == (int) hist.size() - 1 ? -1 : p; cur = hist[p];
	}
	void work(int t) { if(pos >= 0) { hist.resize(pos + 1); pos = -1; } cur = t; }
	void remember() { if(hist.back() != cur) hist.push_back(cur); }
};
static void program(int len, int maxn, bool gc, bool travel, bool pins = false) {
	Caretaker c; c.set_auto_gc(gc); Model m;
	std::vector<Timepoint*> tp { c.get_history_root() };
	auto o = std::make_shared<Originator<int const>>(tp[0], 0, c); c.take_care_of(o);
	std::vector<int> par { -1 };
	for(int i = 0; i < len; ++i) {
		std::string k = std::to_string(i);
		int op = (int) sym_int(("op" + k).c_str(), 0, travel || pins ? 4 : 3);
		if(op == 0 || op == 1) { // work, remembered or not
			par.push_back(m.cur);
			o->set_next_state((int) tp.size()); tp.push_back(c.get_current_timepoint());
			m.work((int) tp.size() - 1);
			if(op == 0) { c.remember_current_timepoint(); m.remember(); }
		} else if(op == 2 || op == 3) {
			int n = (int) sym_int(("n" + k).c_str(), 0, maxn);
			sym_assert((op == 2 ? c.can_undo(n) : c.can_redo(n)) == (n >= 1 && n <= (op == 2 ? m.room_undo() : m.room_redo())), "undo and redo are announced possible exactly when the history holds that many steps");
			if(op == 2) { c.undo(n); m.undo(n); } else { c.redo(n); m.redo(n); }
		} else if(pins) { // pinning matters to garbage collection only
			c.pin_current_timepoint();
		} else { // go back to the parent timepoint and remember it; only when not in the middle of undone history
			if(m.pos >= 0 || par[m.cur] < 0) sym_stop();
			m.cur = par[m.cur]; sym_assert(c.go_and_remember(tp[m.cur]), "travelling succeeds"); m.remember();
		}
		sym_assert(c.get_current_timepoint() == tp[m.cur], "undo and redo stop at the remembered timepoint that many steps away");
	}
	sym_assert(o->get_current_state() == m.cur, "objects follow undo and redo");
	for(int n = 0; n <= len + 1; ++n) {
		sym_assert(c.can_undo(n) == (n >= 1 && n <= m.room_undo()), "final can_undo");
		sym_assert(c.can_redo(n) == (n >= 1 && n <= m.room_redo()), "final can_redo");
	}
}
SYM_CASE(program4, 2, "every program of 4 operations among work, remembered work, undo(n) and redo(n), n <= 3, garbage collection on") { program(4, 3, true, false); }
SYM_CASE(program5, 0, "every program of 5 operations among work, remembered work, undo(n) and redo(n), n <= 2, garbage collection off") { program(5, 2, false, false); }
SYM_CASE(program6, 1, "every program of 6 operations, n <= 3, garbage collection on") { program(6, 3, true, false); }
SYM_CASE(pins4, 2, "every program of 4 operations among work, remembered work, undo(n), redo(n) and pinning, n <= 2, garbage collection on") { program(4, 2, true, false, true); }
SYM_CASE(pins5, 1, "every program of 5 operations among work, remembered work, undo(n), redo(n) and pinning, n <= 2, garbage collection on") { program(5, 2, true, false, true); }
SYM_CASE(pins6, 1, "every program of 6 operations among work, remembered work, undo(n), redo(n) and pinning, n <= 2, garbage collection on") { program(6, 2, true, false, true); }
SYM_CASE(travel5, 0, "every program of 5 operations that also step back to a parent timepoint outside undone history, n <= 1, garbage collection on") { program(5, 1, true, true); }
SYM_CASE(round_trip, 0, "h <= 5 remembered steps, undo a then redo b <= a, symbolic amounts") {
	Caretaker c; std::vector<Timepoint*> tp { c.get_history_root() };
	auto o = std::make_shared<Originator<int const>>(tp[0], 0, c); c.take_care_of(o);
	int h = (int) sym_pick("h", 1, 5);
	for(int i = 1; i <= h; ++i) { o->set_next_state(i); c.remember_current_timepoint(); tp.push_back(c.get_current_timepoint()); }
	int a = (int) sym_int("a", 1, 5), b = (int) sym_int("b", 1, 5);
	sym_assume(a <= h); sym_assume(b <= a);
	c.undo(a); sym_assert(c.get_current_timepoint() == tp[h - a] && o->get_current_state() == h - a, "undo goes back that many remembered steps");
	c.redo(b); sym_assert(c.get_current_timepoint() == tp[h - a + b] && o->get_current_state() == h - a + b, "redo goes forward that many remembered steps");
	c.redo(a - b + 1); sym_assert(o->get_current_state() == h - a + b, "redoing more than was undone does nothing");
	if(a > b) { c.redo(a - b); sym_assert(o->get_current_state() == h, "redoing everything returns to the newest state"); sym_assert(!c.can_redo(), "nothing left to redo"); }
	o->set_next_state(100); sym_assert(!c.can_redo() && o->get_current_state() == 100, "new work drops what was undone");
}
SYM_CASE(undone_travel, 0, "h <= 3 remembered steps, undo a, then a remembered travel to a timepoint other than the current one") {
	Caretaker c; std::vector<Timepoint*> tp { c.get_history_root() };
	auto o = std::make_shared<Originator<int const>>(tp[0], 0, c); c.take_care_of(o);
	int h = (int) sym_pick("h", 2, 3);
	for(int i = 1; i <= h; ++i) { o->set_next_state(i); c.remember_current_timepoint(); tp.push_back(c.get_current_timepoint()); }
	int a = (int) sym_pick("a", 0, 2), to = (int) sym_pick("to", 0, 3); sym_assume(a < h && to <= h);
	if(a) c.undo(a);
	sym_assume(to != h - a);
	if(a) sym_tag("browsing");
	c.go_and_remember(tp[to]);
	c.undo();
	sym_assert(o->get_current_state() == h - a, "undo right after a remembered travel returns to where it started");
}
