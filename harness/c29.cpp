// C29: messages and progress reach whoever listens.
#include "mesh.hpp"
#include "app/openemsh.hpp"
#include "utils/logger.hpp"
#include "utils/progress.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace domain;
namespace {
struct Log { std::vector<std::vector<int>> got; std::vector<bool> interactive; };
static Logger::UserAction answer(int i) { return i == 0 ? Logger::UserAction::OK : i == 1 ? Logger::UserAction::CANCEL : Logger::UserAction::SAVE; }
struct Sink final : Logger::ISink {
	int i; Log* l; Sink(int i, Log* l) : i(i), l(l) {}
	Logger::UserAction log(Logger::LogEvent const& e) const override { l->got[i].push_back(std::atoi(e.message.c_str())); l->interactive[i] = is_interactive; return answer(i); }
};
}
// Sinks under three names; operations: add, choose the interactive one, log to one or all.
struct World { Log l; std::map<int, int> where; int front = -1, fresh = 0; Logger& g = Logger::singleton(); World() { l.got.resize(3); l.interactive.resize(3); } 
	static Logger::Id id(int s) { char const* names[] = { "cli", "gui", "file" }; return s == 3 ? 0 : Logger::id(names[s]); }
	void add(int s, bool first) { int i = fresh++; g.register_sink(id(s), std::make_unique<Sink>(i, &l), first); where[s] = i; if(first) front = i; }
	void choose(int s) { g.set_as_the_interactive(id(s)); if(s == 3) front = -1; else if(where.count(s)) front = where[s]; }
	void log(int dest, int k) {
		Log before = l; auto r = g.log({ .destination = id(dest), .level = Logger::Level::INFO, .user_actions = {}, .default_user_action = {}, .message = std::to_string(k), .informative = {}, .details = {} });
		bool direct = dest != 3 && where.count(dest);
		for(int i = 0; i < fresh; ++i) { bool due = !direct || where[dest] == i; sym_assert(l.got[i].size() == before.got[i].size() + due, "a message reaches once each sink it is for and no other"); if(due) { sym_assert(l.got[i].back() == k, "a message arrives as it was sent"); sym_assert(bool(l.interactive[i]) == (front == i), "a sink knows whether it is the interactive one"); } }
		auto want = direct ? answer(where[dest]) : front >= 0 ? answer(front) : Logger::UserAction::NOTHING;
		sym_assert((int) r == (int) want, "the answer is that of the sink asked, or of the interactive one");
		sym_observe_int((int) r); } };
static void program(int ops) {
	World w; int n = (int) sym_pick("sinks", 0, 3); for(int i = 0; i < n; ++i) { int s = n == 3 ? i : (i + (int) sym_pick(("shift" + std::to_string(i)).c_str(), 0, 1)) % 3; if(w.where.count(s)) sym_stop(); w.add(s, sym_bool(("first" + std::to_string(i)).c_str())); }
	for(int k = 0; k < ops; ++k) { std::string t = std::to_string(k); int s = (int) sym_pick(("sink" + t).c_str(), 0, 3); if(k == ops - 1 || sym_bool(("log" + t).c_str())) w.log(s, k); else w.choose(s); }
}
SYM_CASE(messages, 0, "up to 3 sinks, each made interactive when added or not; all programs of 3 operations (choose the interactive one or none, log to one or to all) that end with a message") { program(3); }
SYM_CASE(messages_deep, 1, "the same with 4 operations") { program(4); }
namespace {
struct Bar { size_t max; std::string message; std::vector<std::pair<size_t, size_t>> ticks; int complete = 0; bool late = false; };
std::vector<std::vector<Bar>> bars; // per listener
struct Impl final : Progress::IBar {
	int who; size_t which; Impl(int who, size_t max, std::string const& m) : who(who), which(bars[who].size()) { bars[who].push_back({ max, m }); }
	Bar& b() { return bars[who][which]; }
	void tick(size_t i) override { b().ticks.push_back({ i, 0 }); b().late = b().late || b().complete; }
	void tick(size_t i, size_t j) override { b().ticks.push_back({ i, j }); b().late = b().late || b().complete; }
	void complete() override { ++b().complete; }
};
void listen(int n) { bars.assign(n, {}); for(int i = 0; i < n; ++i) Progress::singleton().register_impl_builder([i](size_t max, std::string const& m) { return std::make_unique<Impl>(i, max, m); }); }
}
SYM_CASE(bars, 0, "0 to 3 listeners, bars with any limit, up to 3 ticks of either kind with any values") {
	int n = (int) sym_pick("listeners", 0, 3); listen(n); size_t max = (size_t) sym_int("max", 0, 100000);
	auto [bar, i, j] = Progress::Bar::build(max, "working"); sym_assert(i == 0 && j == 0, "counters start at nothing");
	std::vector<std::pair<size_t, size_t>> want; int ticks = (int) sym_pick("ticks", 0, 3);
	for(int k = 0; k < ticks; ++k) { std::string s = std::to_string(k); size_t a = (size_t) sym_int(("a" + s).c_str(), 0, 100000); if(sym_bool(("two" + s).c_str())) { size_t b = (size_t) sym_int(("b" + s).c_str(), 0, 100000); bar.tick(a, b); want.push_back({ a, b }); } else { bar.tick(a); want.push_back({ a, 0 }); } }
	for(int k = 0; k < n; ++k) sym_assert(bars[k].size() == 1 && bars[k][0].complete == 0, "each listener sees the bar once, not complete yet");
	bar.complete();
	for(int k = 0; k < n; ++k) { Bar& b = bars[k][0]; bool same = b.ticks.size() == want.size(); for(size_t t = 0; same && t < want.size(); ++t) same = same & (b.ticks[t].first == want[t].first) & (b.ticks[t].second == want[t].second);
		sym_assert(b.max == max && b.message == "working", "a bar has the limit and message it was made with"); sym_assert(same, "each listener gets every tick as it is"); sym_assert(b.complete == 1, "each listener sees the bar complete once"); }
}
SYM_CASE(steps, 0, "two boxes and fixed lines in 3 relations, any plane and place (|k| <= 1000; 3 places once meshed), 2 listeners, each of the 15 steps") {
	Caretaker::singleton().reset(); app::OpenEMSH o({}); Board::Builder bb; int steps = sym_bool("mesh") ? 15 : 11; int64_t x = steps < 15 ? sym_int("x", -1000, 1000) : 7 * sym_pick("x", -1, 1);
	auto m = std::make_shared<Material>(Material::Type::CONDUCTOR, "m"), d = std::make_shared<Material>(Material::Type::DIELECTRIC, "d");
	Plane pl = (Plane) sym_pick("plane", 0, 2); int k = (int) sym_pick("kind", 0, 2);
	bb.add_polygon_from_box(pl, m, "a", 2, { 0, 1 }, dp({ x, 0 }), dp({ x + 60, 30 }));
	bb.add_polygon_from_box(pl, d, "b", 1, { 0, 1 }, dp({ x + (k == 0 ? 60 : 10), 0 }), dp({ x + (k == 1 ? 30 : 90), 60 }));
	bb.add_fixed_meshline_policy(X, (double) (x + 61)); bb.add_fixed_meshline_policy(Y, (double) (x + 61));
	o.board = bb.build(params(12, 2, 2)); listen(2);
	for(int i = 0; i < steps; ++i) {
		for(auto& l : bars) l.clear(); o.run_next_step();
		sym_assert(bars[0].size() == bars[1].size(), "each listener sees every bar");
		for(size_t b = 0; b < bars[0].size(); ++b) { Bar const& p = bars[0][b]; Bar const& q = bars[1][b];
			sym_assert(p.max == q.max && p.message == q.message && p.ticks == q.ticks && p.complete == q.complete, "each listener sees the same");
			sym_assert(p.complete == 1 && !p.late, "each bar is completed once, after all of its ticks");
			bool up = true; for(size_t t = 1; t < p.ticks.size(); ++t) up = up && p.ticks[t].first >= p.ticks[t - 1].first && p.ticks[t].second >= p.ticks[t - 1].second;
			sym_assert(up, "progress does not go back");
			bool within = true; for(auto& t : p.ticks) within = within && t.second <= p.max; sym_assert(within, "progress stays within the limit"); }
	}
}
