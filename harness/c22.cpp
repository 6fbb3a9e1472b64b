// C22: the steps of a run, one by one or together, forth and back.
#include "mesh.hpp"
#include "app/openemsh.hpp"
using namespace domain;
using app::OpenEMSH; using app::Step;

static Step step(int i) { return (Step) (i - 1); } // i in 1..15
SYM_CASE(order, 0, "all 15 steps") {
	int i = (int) sym_int("step", 0, 14); auto s = (Step) i;
	sym_assert(app::index(s) == (size_t) i + 1, "steps are numbered from 1 in order"); sym_assert(app::index(std::nullopt) == 0 && app::index_max() == 15, "no step is 0, the last is 15");
	auto n = app::next(s); sym_assert(n.has_value() == (i < 14), "every step but the last has a next one"); if(n) sym_assert((int) *n == i + 1, "the next step follows");
	int j = (int) sym_pick("other", 0, 14); auto set = app::that_and_after(s); sym_assert(set.contains((Step) j) == (j >= i), "a step and those after it are exactly those not before");
	sym_assert(set.size() == (size_t) (15 - i), "no other step");
}
struct Print { size_t v[16]; bool operator==(Print const&) const = default; };
static Print print(Board const& b) {
	Print p {}; size_t k = 0;
	for(auto pl : AllPlane) { p.v[0] += b.get_angles(pl).size(); p.v[1] += b.get_conflicts_edge_in_polygons(pl).size(); for(auto& c : b.get_conflicts_edge_in_polygons(pl)) p.v[2] += c->get_current_state().is_solved;
		for(auto& q : b.get_polygons(pl)) for(auto& e : q->edges) { p.v[3] += e->get_current_state().to_reverse; p.v[4] += e->get_current_state().to_mesh; p.v[5] += e->get_current_state().conflicts.size(); }
		for(auto& a : b.get_angles(pl)) p.v[6] += a->get_current_state().to_mesh[H] + a->get_current_state().to_mesh[V]; }
	for(auto a : AllAxis) { p.v[7] += b.get_conflicts_colinear_edges(a).size(); p.v[8] += b.get_conflicts_too_close_meshline_policies(a).size(); p.v[9] += b.get_conflicts_diagonal_or_circular_zones(a).size(); p.v[10] += b.get_meshline_policies(a).size(); p.v[11] += b.get_intervals(a).size(); p.v[12] += b.get_meshlines(a).size();
		for(auto& q : b.get_meshline_policies(a)) p.v[13] += q->get_current_state().is_enabled;
		for(auto& i : b.get_intervals(a)) { p.v[14] += i->get_current_state().conflicts.size(); p.v[15] += i->get_current_state().dmax != 12; } }
	(void) k; return p;
}
// kind 0: nothing to do for most steps; 1: something to reverse, hide, merge; 2: diagonals too
static void open(OpenEMSH& o, int kind) {
	Board::Builder b; Params p = params(12, 2, 2); p.diagonal_dmax = 6; int64_t x = kind == 2 ? 7 : sym_int("x", -1000, 1000); // at any place, but for diagonals
	if(kind) { auto m = std::make_shared<Material>(Material::Type::CONDUCTOR, "m"), d = std::make_shared<Material>(Material::Type::DIELECTRIC, "d");
		b.add_polygon_from_box(XY, m, "a", 2, { 0, 1 }, dp({ x, 0 }), dp({ x + 60, 30 })); b.add_polygon_from_box(XY, d, "b", 1, { 0, 1 }, dp({ x + 10, 0 }), dp({ x + 30, 60 })); b.add_fixed_meshline_policy(X, (double) (x + 61)); b.add_fixed_meshline_policy(Y, 90); }
	else b.add_polygon_from_box(XY, nullptr, "a", 1, { 0, 1 }, dp({ x, 0 }), dp({ x + 60, 30 }));
	if(kind == 2) b.add_polygon(ZX, nullptr, "t", 1, { 0, 1 }, { dp({ 0, x }), dp({ 20, x }), dp({ 0, x + 40 }) });
	o.board = b.build(std::move(p)); Caretaker::singleton().remember_current_timepoint();
}
static std::vector<Print> prints(OpenEMSH& o) { std::vector<Print> v { print(*o.board) }; for(int i = 1; i <= 15; ++i) { o.run({ step(i) }); v.push_back(print(*o.board)); } while(Caretaker::singleton().can_undo()) Caretaker::singleton().undo(); return v; }
static void is_at(OpenEMSH& o, std::vector<Print> const& v, int done) {
	sym_assert(print(*o.board) == v[done], "everything shown is that of the steps run so far");
	sym_assert(o.can_run_a_next_step() == (done < 15), "a next step can be run exactly until the last is");
	sym_assert(o.can_go_before() == (done > 0), "going back is possible once a step is run");
}
SYM_CASE(one_by_one, 0, "boards of 3 kinds at any place, steps run one by one, then from any step again") {
	OpenEMSH o({}); open(o, (int) sym_pick("kind", 0, 2)); auto v = prints(o); is_at(o, v, 0);
	for(int i = 1; i <= 15; ++i) { o.run_next_step(); sym_assert(o.get_current_step() == step(i), "the current step is the last run"); is_at(o, v, i); }
	o.run_next_step(); is_at(o, v, 15);
	int from = (int) sym_pick("from", 1, 15);
	o.go_before(step(from)); sym_assert(print(*o.board) == v[from - 1], "going before a step shows what the steps before it made");
	o.run_from_step(step(from)); is_at(o, v, 15);
	o.go_before(step(from)); o.run_from_step(step(from)); is_at(o, v, 15);
}
SYM_CASE(together, 0, "boards of 3 kinds at any place, all steps at once, then before any step and on, then undone") {
	OpenEMSH o({}); open(o, (int) sym_pick("kind", 0, 2)); auto v = prints(o); o.run_all_steps(); is_at(o, v, 15);
	int from = (int) sym_pick("from", 1, 15), n = (int) sym_pick("n", 1, 2); auto& c = Caretaker::singleton();
	o.go_before(step(from)); for(int i = 0; i < n && from + i <= 15; ++i) o.run_next_step();
	is_at(o, v, from + n - 1 < 15 ? from + n - 1 : 15);
	for(int i = 0; i < n && from + i <= 15; ++i) c.undo();
	is_at(o, v, 15); c.undo(); is_at(o, v, 0); c.redo(); is_at(o, v, 15);
}
SYM_CASE(unreached, 0, "board with something to do, any number of steps run, going before any step not run yet") {
	OpenEMSH o({}); open(o, 1); auto v = prints(o); int done = (int) sym_pick("done", 0, 14); for(int i = 0; i < done; ++i) o.run_next_step();
	int s = (int) sym_int("step", 1, 15); sym_assume(s > done); o.go_before(step(s)); is_at(o, v, done); o.run_next_step(); is_at(o, v, done + 1);
	o.go_before(step(s)); is_at(o, v, s == done + 1 ? done : done + 1);
}
// Programs of moves. 0 next, 1 before the previous step, 2 before step 5 and on from it, 3 before step 12 and on from it
static void program(int kind, int n) {
	OpenEMSH o({}); open(o, kind); auto v = prints(o); int done = 0;
	int start = (int) sym_pick("start", 0, 3) * 5; for(int i = 0; i < start; ++i) { o.run_next_step(); ++done; }
	for(int i = 0; i < n; ++i) {
		int op = (int) sym_pick(("op" + std::to_string(i)).c_str(), 0, 3);
		if(op == 0) { o.run_next_step(); done += done < 15; }
		else if(op == 1) { o.go_before_previous_step(); done -= done > 0; sym_assert(print(*o.board) == v[done], "going before the previous step undoes one step"); continue; }
		else { int s = op == 2 ? 5 : 12; if(done < s) continue; o.go_before(step(s)); sym_assert(print(*o.board) == v[s - 1], "going before a step shows what the steps before it made"); o.run_from_step(step(s)); done = 15; }
		is_at(o, v, done);
	}
}
SYM_CASE(programs1, 0, "programs of 3 moves (next, previous, again from step 5 or 12) after 0, 5, 10 or 15 steps, board with something to do") { program(1, 3); }
SYM_CASE(programs1_long, 1, "programs of 4 moves after 0, 5, 10 or 15 steps, board with something to do") { program(1, 4); }
SYM_CASE(programs0, 0, "programs of 3 moves after 0, 5, 10 or 15 steps, board with little to do") { program(0, 3); }
SYM_CASE(programs2, 1, "programs of 5 moves after 0, 5, 10 or 15 steps, board with diagonals") { program(2, 5); }
// Moves forth and back are remembered, and can be undone and redone.
static void remembered(int kind, int most) {
	OpenEMSH o({}); open(o, kind); auto v = prints(o); auto& c = Caretaker::singleton(); std::vector<int> hist { 0 }; int done = 0;
	int n = (int) sym_pick("n", 1, most), b = (int) sym_pick("b", 1, most + 1), m = (int) sym_pick("m", 0, 1), u = (int) sym_pick("u", 1, 2 * most + 2);
	for(int i = 0; i < n; ++i) { o.run_next_step(); hist.push_back(++done); }
	for(int i = 0; i < b; ++i) { o.go_before_previous_step(); if(done) hist.push_back(--done); is_at(o, v, done); }
	for(int i = 0; i < m; ++i) { o.run_next_step(); hist.push_back(++done); }
	int last = (int) hist.size() - 1; if(u > last) { sym_assert(!c.can_undo(u), "no more moves can be undone than were made"); sym_stop(); }
	sym_assert(c.can_undo(u), "every move can be undone");
	for(int i = 1; i <= u; ++i) { c.undo(); is_at(o, v, hist[last - i]); }
	sym_assert(c.can_redo(u) && !c.can_redo(u + 1), "exactly the moves undone can be redone");
	for(int i = u - 1; i >= 0; --i) { c.redo(); is_at(o, v, hist[last - i]); }
}
SYM_CASE(remembered1, 0, "1 to 3 steps, 1 to 4 moves back, maybe one on, then undo and redo of any number of moves, board with something to do") { remembered(1, 3); }
SYM_CASE(remembered0, 0, "1 to 2 steps, 1 to 3 moves back, maybe one on, then undo and redo of any number of moves, board with little to do") { remembered(0, 2); }
