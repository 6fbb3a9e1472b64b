// C27: the command line becomes the parameters it spells.
#include "csx.hpp"
#include "app/openemsh.hpp"
#include <algorithm>
#include <charconv>
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <map>
#include <functional>
#include <set>
#include <vector>
#include <filesystem>
#include <optional>
// The digits themselves are outside: numbers are read by from_chars, which reads placeholders.
namespace std {
static double vcli_strtold(char const* s, char** e) { double v = 0; auto r = std::from_chars(s, s + strlen(s), v); *e = const_cast<char*>(r.ptr); return v; }
static unsigned long long vcli_strtoull(char const* s, char** e, int) { double v = 0; auto r = std::from_chars(s, s + strlen(s), v); *e = const_cast<char*>(r.ptr); return (unsigned long long) v; }
static long long vcli_strtoll(char const* s, char** e, int) { double v = 0; auto r = std::from_chars(s, s + strlen(s), v); *e = const_cast<char*>(r.ptr); return (long long) v; }
}
struct Exited { int code; };
[[noreturn]] static void vcli_exit(int code) { throw Exited{ code }; }
#define strtold vcli_strtold
#define strtoull vcli_strtoull
#define strtoll vcli_strtoll
#define exit vcli_exit
#define OEMSH_VERSION "v"
#include "ui/cli/cli.cpp"
#undef exit
#undef strtold
#undef strtoull
#undef strtoll

namespace {
struct Line {
	std::vector<std::string> a;
	std::optional<app::OpenEMSH::Params> p; int code = -1;
	void add(char const* s) { a.emplace_back(s); }
	void num(char const* option, char const* name, double v) { add(option); a.emplace_back(sym_text(name, v)); }
	void run() {
		std::vector<char*> v; for(auto& s : a) v.push_back(s.data());
		static bool silent = [] { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); return true; }(); (void) silent;
		try { p = ui::cli::cli((int) v.size(), v.data()); } catch(Exited const& e) { code = e.code; }
	}
	domain::Params over() const { domain::Params d; d.dmax = 77; d.lmin = 78; d.smoothness = 1.77; d.proximity_limit = 79; d.diagonal_dmax = 80; d.diagonal_lmin = 81; d.consecutive_diagonal_minimal_angle = 82;
		d.input_fixed_meshlines = { { domain::Y, 5 } }; d.has_grid_already = true; p->override_from_cli(d); return d; }
};
struct Values { double dmax = 77, smoothness = 1.77, prox = 79, ddmax = 80, angle = 82; int64_t lmin = 78, dlmin = 81; };
void same(domain::Params const& d, Values const& v) {
	sym_assert(d.dmax == v.dmax, "dmax is as asked, else untouched");
	sym_assert(d.smoothness == v.smoothness, "smoothness is as asked, else untouched");
	sym_assert(d.proximity_limit == v.prox, "the proximity limit is as asked, else untouched");
	sym_assert(d.diagonal_dmax == v.ddmax, "dmax of diagonals is as asked, else untouched");
	sym_assert(d.consecutive_diagonal_minimal_angle == v.angle, "the minimal angle is as asked, else untouched");
	sym_assert((int64_t) d.lmin == v.lmin, "lmin is as asked, else untouched");
	sym_assert((int64_t) d.diagonal_lmin == v.dlmin, "lmin of diagonals is as asked, else untouched");
	sym_assert(d.has_grid_already, "what no option names is untouched");
}
}

SYM_CASE(overrides, 0, "each of 7 mesher options given or not (or all of them and two fixed lines), any values (k/8, k <= 80000; lmin < 2^31)") {
	Scratch f; f.write("x"); Line l; l.add("prog"); l.add(f.name); Values w;
	int n = 0; bool all = sym_pick("all", 0, 1); auto ask = [&](char const* nm) { if(all) return true; bool b = sym_bool(nm); n += b; return b; };
	if(ask("dmax?")) { w.dmax = sym_grid("dmax", 1, 80000, -3); l.num("--dmax", "dmax", w.dmax); }
	if(ask("prox?")) { w.prox = sym_grid("prox", 0, 80000, -3); l.num("--proximity-limit", "prox", w.prox); }
	if(ask("ddmax?")) { w.ddmax = sym_grid("ddmax", 1, 80000, -3); l.num("--diag-dmax", "ddmax", w.ddmax); }
	if(ask("angle?")) { w.angle = sym_grid("angle", 0, 80000, -3); l.num("--diag-minimal-angle", "angle", w.angle); }
	if(ask("smooth?")) { int64_t k = sym_int("smoothness", 9, 16); w.smoothness = k * 0.125; l.num("--smoothness", "smooth", w.smoothness); }
	if(ask("lmin?")) { w.lmin = sym_int("lmin", 0, 2147483647); l.num("--lmin", "lmin", w.lmin); }
	if(ask("dlmin?")) { w.dlmin = sym_int("dlmin", 0, 2147483647); l.num("--diag-lmin", "dlmin", w.dlmin); }
	double at[2] = {}; if(all) for(int i = 0; i < 2; ++i) { at[i] = sym_grid(i ? "at1" : "at0", -800, 800, -3); l.add("--add-fixed-meshline"); l.a.emplace_back(std::string(i ? "z" : "x") + "," + sym_text(i ? "f1" : "f0", at[i])); }
	l.run();
	sym_assert(l.p.has_value(), "the command line is accepted");
	same(l.over(), w);
	auto const& d = l.over();
	if(!all) sym_assert(d.input_fixed_meshlines.size() == 1, "fixed lines are untouched");
	else sym_assert(d.input_fixed_meshlines == std::vector<std::pair<domain::Axis, double>>{ { domain::X, at[0] }, { domain::Z, at[1] } }, "there are as many fixed lines as asked");
	sym_observe_double(d.dmax); sym_observe_int(d.lmin);
}
SYM_CASE(smoothness, 0, "any smoothness (k/8, |k| <= 80)") {
	Scratch f; f.write("x"); Line l; l.add("prog"); l.add("-i"); l.add(f.name);
	double s = sym_grid("s", -80, 80, -3); l.num("--smoothness", "sm", s); l.run();
	bool ok = (s > 1) & (s <= 2);
	sym_assert(l.p.has_value() == ok, "a smoothness is accepted exactly above 1 and up to 2");
	if(l.p) sym_assert(l.over().smoothness == s, "smoothness is as asked"); else sym_assert(l.code != 0, "a refused command line fails");
}
SYM_CASE(endless, 0, "any limit of proximity, any dmax or any diagonal dmax (k/8, |k| <= 80)") {
	static char const* const os[] = { "--proximity-limit", "--dmax", "--diag-dmax" }; int o = (int) sym_pick("option", 0, 2);
	Scratch f; f.write("x"); Line l; l.add("prog"); l.add("-i"); l.add(f.name);
	double v = sym_grid("value", -80, 80, -3); l.num(os[o], "v", v); l.run(); bool ok = o ? v > 0 : v >= 0;
	sym_assert(l.p.has_value() == ok, "distances are accepted exactly when they can be met: a dmax above 0, a limit of 0 or more");
	if(l.p) { auto d = l.over(); sym_assert((o == 0 ? d.proximity_limit : o == 1 ? d.dmax : d.diagonal_dmax) == v, "distances are as asked"); } else sym_assert(l.code != 0, "a refused command line fails");
}
SYM_CASE(fixed, 0, "1 to 3 fixed lines on any axis (letter of either case) at any place (k/8, |k| <= 80000), as one option or several") {
	Scratch f; f.write("x"); Line l; l.add("prog"); l.add(f.name);
	static char const* const names[] = { "x", "y", "z", "X", "Y", "Z" };
	int n = (int) sym_pick("n", 1, 3); bool once = sym_bool("once"); std::vector<std::pair<int, double>> w;
	for(int i = 0; i < n; ++i) {
		int a = (int) sym_pick("axis", 0, i ? 2 : 5); double v = sym_grid("at", -80000, 80000, -3); w.emplace_back(a % 3, v);
		if(!once || !i) l.add("--add-fixed-meshline");
		l.a.emplace_back(std::string(names[a]) + "," + sym_text(("f" + std::to_string(i)).c_str(), v));
	}
	l.run();
	sym_assert(l.p.has_value(), "the command line is accepted");
	auto d = l.over();
	sym_assert((int) d.input_fixed_meshlines.size() == n, "there are as many fixed lines as asked");
	for(int i = 0; i < n; ++i) { sym_assert((int) d.input_fixed_meshlines[i].first == w[i].first, "a fixed line is on its axis"); sym_assert(d.input_fixed_meshlines[i].second == w[i].second, "a fixed line is at its place"); }
	same(d, {});
}
SYM_CASE(flags, 0, "each of the 6 planes and axes, verbose, force, saving and gui asked or not") {
	Scratch f; f.write("x"); Line l; l.add("prog"); l.add(f.name);
	static char const* const o[] = { "--no-yz", "--no-zx", "--no-xy", "--no-x", "--no-y", "--no-z", "-v", "-f", "--save-oemsh-params", "-G" };
	static char const* const o2[] = { "--no-yz", "--no-zx", "--no-xy", "--no-x", "--no-y", "--no-z", "--verbose", "--force", "--save-oemsh-params", "-G" };
	bool on[10] = {}; int k = 0; bool lng = sym_bool("long");
	for(int i = 0; i < 10; ++i) if(sym_bool("on")) { on[i] = true; ++k; l.add(lng ? o2[i] : o[i]); }
	l.run();
	sym_assert(l.p.has_value(), "the command line is accepted");
	auto const& p = *l.p;
	sym_assert((p.with_yz == !on[0]) & (p.with_zx == !on[1]) & (p.with_xy == !on[2]), "planes are left out exactly as asked");
	sym_assert((p.with_axis_x == !on[3]) & (p.with_axis_y == !on[4]) & (p.with_axis_z == !on[5]), "axes are left out exactly as asked");
	sym_assert((p.verbose == on[6]) & (p.force == on[7]) & (p.with_oemsh_params == on[8]) & (p.gui == on[9]), "switches are as asked");
	sym_assert(p.input == f.name && p.output == f.name, "the output is the input by default");
	sym_assert(p.output_format == app::OpenEMSH::Params::OutputFormat::CSX, "the format is CSX by default");
	same(l.over(), {});
}
SYM_CASE(files, 0, "input given by place, short or long option or not, existing or not, output or not, 3 formats in either case or none, gui or not, forced or not, nothing at all") {
	Scratch f; f.write("x"); Line l; l.add("prog");
	bool nothing = sym_bool("nothing"); int how = 3; bool there = true, out = false, gui = false, force = false; int fmt = 3;
	if(!nothing) {
		gui = sym_bool("gui"); if(gui) l.add("-G");
		how = (int) sym_pick("how", 0, 3); there = how == 3 || sym_bool("there"); out = sym_bool("out"); fmt = (int) sym_pick("format", 0, 4);
		std::string in = there ? f.name : std::string(f.name) + "-none";
		if(how == 0) l.a.push_back(in); else if(how == 1) { l.add("-i"); l.a.push_back(in); } else if(how == 2) { l.add("--input"); l.a.push_back(in); }
		if(out) { l.add(sym_bool("o") ? "-o" : "--output"); l.add("/other/out.csx"); }
		force = sym_bool("force"); if(force) l.add("-f");
		static char const* const fs[] = { "csx", "plantuml", "PrettyPrint", "", "none" };
		if(fmt != 3) { l.add("--output-format"); l.add(fs[fmt]); }
		if(l.a.size() == 1) { gui = true; nothing = true; }
	} else gui = true;
	l.run();
	bool ok = there && fmt != 4 && (how != 3 || gui);
	sym_assert(l.p.has_value() == ok, "exactly the command lines that make sense are accepted");
	if(!ok) { sym_assert(l.code != 0, "a refused command line fails"); return; }
	using F = app::OpenEMSH::Params::OutputFormat;
	auto const& p = *l.p; std::string in = how == 3 ? "" : f.name;
	sym_assert(p.input == in, "the input is as asked"); sym_assert(p.output == (out ? std::string("/other/out.csx") : in), "the output is as asked, else the input");
	sym_assert(p.force == force, "switches are as asked");
	sym_assert(p.gui == gui, "there is a GUI if asked for or nothing is asked");
	sym_assert(p.output_format == (fmt == 1 ? F::PLANTUML : fmt == 2 ? F::PRETTYPRINT : F::CSX), "the format is as asked");
}
SYM_CASE(choices, 0, "each of 4 yes-or-no options given or not, either way") {
	Scratch f; f.write("x"); Line l; l.add("prog"); l.add(f.name);
	static char const* const o[] = { "--read-oemsh-params", "--integrate-old-mesh", "--meshlines", "--policy-lines" };
	app::OpenEMSH::Params d; bool w[4] = { d.read_oemsh_params, d.keep_old_mesh, d.with_meshlines, d.with_meshline_policies };
	for(int i = 0; i < 4; ++i) if(sym_bool("given")) { w[i] = sym_bool("yes"); l.add(o[i]); l.add(w[i] ? "true" : "false"); }
	l.run();
	sym_assert(l.p.has_value(), "the command line is accepted");
	sym_assert((l.p->read_oemsh_params == w[0]) & (l.p->keep_old_mesh == w[1]) & (l.p->with_meshlines == w[2]) & (l.p->with_meshline_policies == w[3]), "choices are as asked, else the defaults");
}
SYM_CASE(together, 0, "everything at once but any two switches: input, output, format, switches, choices, mesher options and fixed lines") {
	Scratch f; f.write("x"); Line l; l.add("prog");
	static char const* const o[] = { "--no-yz", "--no-zx", "--no-xy", "--no-x", "--no-y", "--no-z", "-v", "-f", "--save-oemsh-params", "-G" }, * const c[] = { "--read-oemsh-params", "--integrate-old-mesh", "--meshlines", "--policy-lines" };
	int a = (int) sym_pick("but", 0, 9), b = (int) sym_pick("and", 0, 9); if(b < a) sym_stop(); bool on[10], w[4], fmt = sym_pick("format", 0, 1), late = sym_pick("late", 0, 1); int yes = (int) sym_pick("yes", 0, 4); Values v;
	auto files = [&] { l.add("-o"); l.add("/other/out.csx"); l.add("-i"); l.a.push_back(f.name); l.add("--output-format"); l.add(fmt ? "plantuml" : "csx"); }; if(!late) files();
	for(int i = 0; i < 10; ++i) { on[i] = i != a && i != b; if(on[i]) l.add(o[i]); if(i == 4) { v.dmax = 5; v.smoothness = 1.5; v.lmin = 3; l.num("--dmax", "dmax", 5); l.num("--smoothness", "smooth", 1.5); l.num("--lmin", "lmin", 3); } }
	for(int i = 0; i < 4; ++i) { w[i] = yes == i || yes == 4; l.add(c[i]); l.add(w[i] ? "true" : "false"); } l.add("--add-fixed-meshline"); l.add("z,4"); l.num("--diag-dmax", "ddmax", 2); v.ddmax = 2; if(late) files(); l.run();
	sym_assert(l.p.has_value(), "the command line is accepted"); if(!l.p) return; auto const& p = *l.p;
	sym_assert((p.with_yz == !on[0]) & (p.with_zx == !on[1]) & (p.with_xy == !on[2]), "planes are left out exactly as asked"); sym_assert((p.with_axis_x == !on[3]) & (p.with_axis_y == !on[4]) & (p.with_axis_z == !on[5]), "axes are left out exactly as asked");
	sym_assert((p.verbose == on[6]) & (p.force == on[7]) & (p.with_oemsh_params == on[8]) & (p.gui == on[9]), "switches are as asked"); sym_assert((p.read_oemsh_params == w[0]) & (p.keep_old_mesh == w[1]) & (p.with_meshlines == w[2]) & (p.with_meshline_policies == w[3]), "choices are as asked, else the defaults");
	sym_assert(p.input == f.name && p.output == "/other/out.csx" && p.output_format == (fmt ? app::OpenEMSH::Params::OutputFormat::PLANTUML : app::OpenEMSH::Params::OutputFormat::CSX), "files and format are as asked"); same(l.over(), v);
	auto d = l.over().input_fixed_meshlines; sym_assert(d.size() == 1 && d[0].first == domain::Z && d[0].second == 4, "a fixed line is at its place");
}
SYM_CASE(unknown, 0, "5 kinds of senseless command lines, help and version") {
	Scratch f; f.write("x"); Line l; l.add("prog"); l.add(f.name); int k = (int) sym_pick("k", 0, 6);
	switch(k) { case 0: l.add("--nothing-like-it"); break; case 1: l.add("--dmax"); break; case 2: l.add("--add-fixed-meshline"); l.add("w,1"); break; case 3: l.add("--dmax"); l.add("wide"); break;
		case 4: l.add("--meshlines"); l.add("perhaps"); break; case 5: l.add("--help"); break; default: l.add("--version"); }
	l.run();
	sym_assert(!l.p.has_value(), "nothing is run"); sym_assert((l.code == 0) == (k >= 5), "help and version succeed, a senseless command line fails");
}
