// C26: a mesh written to a file.
#include "csx.hpp"
#include "infra/serializers/serializer_to_csx.hpp"
#include "domain/material.hpp"
#include "app/openemsh.hpp"
#include <pugixml.hpp>
using namespace domain;

static std::string const PROPS = "<Properties><Metal Name=\"m\"><Primitives><Box Priority=\"3\"><P1 X=\"1\" Y=\"2\" Z=\"3\"/><P2 X=\"4\" Y=\"5\" Z=\"6\"/></Box></Primitives></Metal></Properties>";
static std::string grid(int old) { return old == 0 ? "" : old == 1 ? "<RectilinearGrid/>" : "<RectilinearGrid DeltaUnit=\"0.001\" CoordSystem=\"0\"><XLines>1,2,3</XLines><YLines>4.5</YLines><ZLines/></RectilinearGrid>"; }
static std::string body(bool under, int old, bool first, std::string const& oemsh) {
	std::string csx = "<ContinuousStructure CoordSystem=\"0\">" + (first ? grid(old) + PROPS : PROPS + grid(old)) + "</ContinuousStructure>";
	return oemsh + (under ? "<openEMS><FDTD NumberOfTimesteps=\"30\"/>" + csx + "</openEMS>" : csx);
}
// a board with given mesh lines, and policies at given places (every second one out of use)
static std::shared_ptr<Board> board(std::vector<double> const (&lines)[3], std::vector<double> const (&pols)[3], Params p = {}) {
	Caretaker::singleton().reset(); Board::Builder bd; bd.set_background_material(std::make_shared<Material>(Material::Type::AIR, "air")); auto b = bd.build(std::move(p)); auto& m = *b->line_policy_manager;
	for(int a = 0; a < 3; ++a) for(size_t i = 0; i < pols[a].size(); ++i) m.add_meshline_policy({}, (Axis) a, MP::Policy::ONELINE, MP::Normal::NONE, pols[a][i], i % 2 == 0);
	auto [t, s] = m.make_next_state(); for(int a = 0; a < 3; ++a) for(double v : lines[a]) s.meshlines[(Axis) a].push_back(std::make_shared<Meshline>(v, (Interval const*) nullptr)); m.set_state(t, s); return b;
}
struct Read { bool ok = false; std::vector<double> lines[3]; bool has[3] = {}; domain::Params params; };
static Read read(char const* name) { // what the file says to whoever reads it next
	Read r; Caretaker::singleton().reset(); ParserFromCsx::Params pp; pp.keep_old_mesh = true; auto b = ParserFromCsx::run(name, pp); if(!b.has_value()) return r; r.ok = true;
	(*b)->add_fixed_meshline_policies(); for(int a = 0; a < 3; ++a) for(auto& q : (*b)->get_meshline_policies((Axis) a)) r.lines[a].push_back(q->coord.value()); r.params = (*b)->global_params->get_current_state();
	return r;
}
static char const* const NODE[] = { "XLines", "YLines", "ZLines" };
// everything but the grid and what is OpenEMSH's own
static std::string rest(char const* name, bool* has) {
	pugi::xml_document d; if(!d.load_file(name)) return "?"; d.remove_child("OpenEMSH"); auto c = d.child("openEMS") ? d.child("openEMS").child("ContinuousStructure") : d.child("ContinuousStructure"); auto g = c.child("RectilinearGrid");
	if(has) for(int a = 0; a < 3; ++a) has[a] = !g.child(NODE[a]).empty(); c.remove_child("RectilinearGrid"); std::ostringstream o; d.save(o, "", pugi::format_raw); return o.str();
}
static std::string attrs(char const* name) { pugi::xml_document d; if(!d.load_file(name)) return "?"; auto c = d.child("openEMS") ? d.child("openEMS").child("ContinuousStructure") : d.child("ContinuousStructure"); std::string s; for(auto& a : c.child("RectilinearGrid").attributes()) s += std::string(a.name()) + "=" + a.value() + ";"; return s; }
// n lines in order at any place on an axis, distinct
static std::vector<double> lines(char const* name, int n, int exp, double from) { std::vector<double> v; for(int i = 0; i < n; ++i) { v.push_back(sym_grid((std::string(name) + std::to_string(i)).c_str(), -100000, 100000, exp)); if(i) sym_assume(v[i] > v[i - 1]); } (void) from; return v; }
static void written(int exp, int n) {
	int ax = (int) sym_pick("axis", 0, 2), old = (int) sym_pick("grid", 0, 2), shape = (int) sym_pick("shape", 0, 3), f = (int) sym_pick("flags", 0, 7), what = (int) sym_pick("what", 0, 2); bool same = sym_pick("same", 0, 1), on[3] = { !(f & 1), !(f & 2), !(f & 4) };
	std::vector<double> ls[3] = { { 1, 2.5 }, { -7, 8 }, { 40 } }, ps[3] = { { 20000 }, { 20001, 20002, 20003 }, {} }; ls[ax] = lines("l", n, exp, 0);
	std::string xml = body(shape & 1, old, shape & 2, ""); Scratch in, out; in.write(xml); std::string before = rest(in.name, nullptr), before_attrs = attrs(in.name);
	auto b = board(ls, ps); SerializerToCsx::Params sp; sp.with_axis_x = on[0]; sp.with_axis_y = on[1]; sp.with_axis_z = on[2]; sp.with_meshlines = what != 1; sp.with_meshline_policies = what != 0;
	char const* to = same ? in.name : out.name; auto r = SerializerToCsx::run(*b, in.name, to, sp); sym_assert(r.has_value(), "the file is written"); if(!r.has_value()) return;
	bool has[3]; sym_assert(rest(to, has) == before, "everything but the grid stays as it was"); for(int a = 0; a < 3; ++a) sym_assert(has[a] == on[a], "exactly the axes asked for are in the grid"); if(old) sym_assert(attrs(to) == before_attrs, "the unit of the grid stays as it was");
	auto got = read(to); sym_assert(got.ok, "the file can be read again"); if(!got.ok) return;
	for(int a = 0; a < 3; ++a) {
		std::vector<double> want; if(on[a] && what != 1) want = ls[a]; if(on[a] && what != 0) for(size_t i = 0; i < ps[a].size(); i += 2) want.push_back(ps[a][i]);
		sym_assert(got.lines[a].size() == want.size(), "the lines of the file are those asked for, old ones are gone"); if(got.lines[a].size() != want.size()) return;
		for(size_t i = 0; i < want.size(); ++i) sym_assert(near(got.lines[a][i], want[i], 1e-8), "every line of the file is where the mesh has it");
	}
}
SYM_CASE(grid, 0, "2 lines at any place (|k| <= 100000, in 2^-3), all axes, old grids, file shapes, flags, same or other file") { written(-3, 2); }
SYM_CASE(fine, 0, "2 lines at any place (|k| <= 100000, in 2^-24)") { Scratch in, out; std::vector<double> ls[3] = { lines("l", 2, -24, 0), {}, {} }, ps[3]; in.write(body(true, 0, true, "")); auto b = board(ls, ps); auto r = SerializerToCsx::run(*b, in.name, out.name); sym_assert(r.has_value(), "the file is written");
	auto got = read(out.name); sym_assert(got.ok, "the file can be read again"); if(ls[0][1] - ls[0][0] > 1e-7) { sym_assert(got.lines[0].size() == 2, "the lines of the file are those asked for, old ones are gone"); if(got.lines[0].size() == 2) for(int i = 0; i < 2; ++i) sym_assert(near(got.lines[0][i], ls[0][i], 1e-8), "every line of the file is where the mesh has it"); } }
SYM_CASE(params, 0, "parameters of any value, kept or left out, over a file with or without some") {
	int old = (int) sym_pick("old", 0, 2); bool keep = sym_pick("keep", 0, 1), same = sym_pick("same", 0, 1); domain::Params p; p.proximity_limit = sym_grid("proximity", 0, 100000, -6); p.smoothness = sym_grid("smoothness", 64, 100000, -6); p.has_grid_already = sym_pick("grid", 0, 1); p.dmax = sym_grid("dmax", 1, 100000, -6); p.lmin = (size_t) sym_int("lmin", 0, 1000000);
	static char const* const had[] = { "", "<OpenEMSH/>", "<OpenEMSH><GlobalParams ProximityLimit=\"9\" Smoothness=\"9\" dmax=\"9\" lmin=\"9\" other=\"9\"/></OpenEMSH>" };
	Scratch in, out; in.write(body(true, 1, true, had[old])); std::vector<double> none[3]; auto b = board(none, none, domain::Params(p)); SerializerToCsx::Params sp; sp.with_oemsh_params = keep; char const* to = same ? in.name : out.name;
	auto r = SerializerToCsx::run(*b, in.name, to, sp); sym_assert(r.has_value(), "the file is written"); auto got = read(to); sym_assert(got.ok, "the file can be read again"); if(!got.ok) return; domain::Params def; auto const& w = keep ? p : def; auto const& g = got.params;
	sym_assert((g.proximity_limit == w.proximity_limit) & (g.smoothness == w.smoothness) & (g.dmax == w.dmax) & (g.lmin == w.lmin), keep ? "parameters kept in the file are those of the mesh" : "parameters left out are not in the file");
	pugi::xml_document d; d.load_file(to); sym_assert(d.child("OpenEMSH").empty() != keep, "parameters are in the file exactly when asked for");
}
SYM_CASE(unreadable, 0, "no input file, or one that is not XML") {
	Scratch in, out; in.write(sym_pick("kind", 0, 1) ? "<openEMS><Contin" : ""); std::vector<double> none[3]; auto b = board(none, none); out.write("as it was"); if(sym_pick("gone", 0, 1)) unlink(in.name);
	auto r = SerializerToCsx::run(*b, in.name, out.name); sym_assert(!r.has_value(), "an input that cannot be read is reported"); std::ifstream f(out.name); std::string s((std::istreambuf_iterator<char>(f)), {}); sym_assert(s == "as it was", "nothing is written then");
}
// Through the application: read, mesh, write, read again.
SYM_CASE(whole, 0, "a box of 3 sizes at any place along an axis and 2 fixed lines, read, meshed, written and read again") {
	static int64_t const sizes[] = { 30, 61, 7 }; int64_t x = sym_int("x", -1000, 1000), w = sizes[sym_pick("size", 0, 2)]; Scratch in, out; bool same = sym_pick("same", 0, 1);
	std::string xml = "<OpenEMSH><GlobalParams dmax=\"12\"/><FixedMeshlines><ZLines>-20,40</ZLines></FixedMeshlines></OpenEMSH><openEMS><ContinuousStructure><BackgroundMaterial/><Properties><Metal Name=\"m\"><Primitives><Box Priority=\"1\"><P1" + attr("X", (double) x); xml += " Y=\"0\" Z=\"1\"/><P2" + attr("X", (double) (x + w)) + " Y=\"20\" Z=\"9\"/></Box></Primitives></Metal></Properties></ContinuousStructure></openEMS>"; in.write(xml);
	app::OpenEMSH::Params p; p.input = in.name; p.output = same ? in.name : out.name; p.with_oemsh_params = true; p.override_from_cli = [](domain::Params&) {}; app::OpenEMSH o(p); auto r = o.parse(); sym_assert(r.has_value(), "the file is read"); if(!r.has_value()) return;
	o.run_all_steps(); std::vector<double> want[3]; for(auto a : AllAxis) for(auto& l : o.get_board().get_meshlines(a)) want[a].push_back(l->coord.value()); for(int a = 0; a < 3; ++a) sym_assert(want[a].size() > 2, "there is a mesh");
	auto q = o.write(); sym_assert(q.has_value(), "the file is written");
	pugi::xml_document d; sym_assert((bool) d.load_file(same ? in.name : out.name), "the file can be read again"); sym_assert(!d.child("OpenEMSH").child("FixedMeshlines").empty(), "fixed lines stay in the file"); d.child("OpenEMSH").remove_child("FixedMeshlines"); d.save_file(out.name);
	auto got = read(out.name); sym_assert(got.ok && got.params.dmax == 12, "the file can be read again");
	for(int a = 0; a < 3; ++a) { sym_assert(got.lines[a].size() == want[a].size(), "the lines of the file are those of the mesh"); if(got.lines[a].size() == want[a].size()) for(size_t i = 0; i < want[a].size(); ++i) sym_assert(got.lines[a][i] == want[a][i], "every line of the file is where the mesh has it"); }
}
SYM_CASE(overwriting, 0, "file there or not, forced or not, 3 formats") {
	Scratch in, out; in.write(body(true, 2, true, "")); int there = (int) sym_pick("there", 0, 1), force = (int) sym_pick("force", 0, 1), fmt = (int) sym_pick("format", 0, 2); if(!there) unlink(out.name);
	app::OpenEMSH::Params p; p.input = in.name; p.output = out.name; p.force = force; using F = app::OpenEMSH::Params::OutputFormat; p.output_format = fmt == 0 ? F::CSX : fmt == 1 ? F::PLANTUML : F::PRETTYPRINT; app::OpenEMSH o(p);
	sym_assert(o.is_about_overwriting() == (there && !force && fmt == 0), "overwriting a file is noticed unless forced");
}
