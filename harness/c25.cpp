// C25: parameters, lines and materials read from a file.
#include "csx.hpp"
#include "domain/material.hpp"
using namespace domain;

static char const* const NODE[] = { "XLines", "YLines", "ZLines" };
static std::string list(std::vector<double> const& v) { std::string s; for(size_t i = 0; i < v.size(); ++i) { static int n = 0; s += (i ? "," : "") + std::string(sym_text(("l" + std::to_string(n++)).c_str(), v[i])); } return s; }
static std::string lines(std::vector<double> const (&v)[3], int empty) { std::string s; for(int a = 0; a < 3; ++a) if(!v[a].empty() || empty) s += std::string("<") + NODE[a] + ">" + list(v[a]) + "</" + NODE[a] + ">"; return s; }
static std::shared_ptr<Board> parse(std::string const& xml, ParserFromCsx::Params pp, std::function<void (Params&)> const& f, bool expect = true) {
	Caretaker::singleton().reset(); Scratch file; file.write(xml); auto r = ParserFromCsx::run(file.name, pp, f);
	sym_assert(r.has_value() == expect, expect ? "the file is read" : "a file that cannot be read is refused"); return r.has_value() ? *r : nullptr;
}
static std::vector<double> unique(std::vector<double> const& v) { std::vector<double> u; for(double c : v) { bool known = false; for(double k : u) known = known || k == c; if(!known) u.push_back(c); } return u; }
static void has_lines(Board& b, std::vector<double> const (&want)[3]) {
	b.add_fixed_meshline_policies();
	for(int a = 0; a < 3; ++a) { auto u = unique(want[a]); auto& got = b.get_meshline_policies((Axis) a); sym_assert(got.size() == u.size(), "fixed lines are exactly those asked for"); if(got.size() == u.size()) for(size_t i = 0; i < u.size(); ++i) sym_assert((got[i]->coord.value() == u[i]) & got[i]->get_current_state().is_enabled & (got[i]->get_current_state().policy == MP::Policy::ONELINE), "fixed lines are exactly those asked for"); }
}
// lines asked for by the parameters in the file, kept from the old mesh, and asked for by the caller
SYM_CASE(fixed, 0, "2 lines of parameters in any of 5 units, 2 old lines and one given by the caller, all on one axis at any place (|k| <= 8000, eighths), kept or not, read or not") {
	int ax = (int) sym_pick("axis", 0, 2), unit = (int) sym_pick("unit", 0, 4), g = (int) sym_pick("grid", 0, 2); ParserFromCsx::Params pp; pp.read_oemsh_params = sym_pick("read", 0, 1); pp.keep_old_mesh = sym_pick("keep", 0, 1);
	static char const* const us[] = { nullptr, "1", "0.5", "2", "0.25" }; static double const uv[] = { 1, 1, 0.5, 2, 0.25 }; static char const* const gs[] = { "", " DeltaUnit=\"0.001\" CoordSystem=\"0\"", " DeltaUnit=\"1e-06\"" };
	std::vector<double> oemsh[3], old[3], want[3]; for(int a = 0; a < 3; ++a) { int n = a == ax ? 2 : 0; for(int i = 0; i < n; ++i) oemsh[a].push_back(sym_grid(("f" + std::to_string(i)).c_str(), -8000, 8000, -3)); for(int i = 0; i < n; ++i) old[a].push_back(sym_grid(("o" + std::to_string(i)).c_str(), -8000, 8000, -3)); }
	old[(ax + 1) % 3] = { 5, 6, 5 }; oemsh[(ax + 2) % 3] = { -3, 4 }; double c = sym_grid("c", -8000, 8000, -3);
	if(pp.read_oemsh_params) for(int a = 0; a < 3; ++a) for(double v : oemsh[a]) want[a].push_back(v * uv[unit]);
	if(pp.keep_old_mesh) for(int a = 0; a < 3; ++a) for(double v : old[a]) want[a].push_back(v);
	want[ax].push_back(c);
	std::string xml = std::string("<OpenEMSH><FixedMeshlines") + (us[unit] ? attr("DeltaUnit", us[unit]) : "") + ">" + lines(oemsh, 0) + "</FixedMeshlines></OpenEMSH>"; xml += std::string("<openEMS><ContinuousStructure CoordSystem=\"0\"><RectilinearGrid") + gs[g] + ">" + lines(old, 1) + "</RectilinearGrid></ContinuousStructure></openEMS>";
	auto b = parse(xml, pp, [&](Params& p) { sym_assert(p.has_grid_already, "an old mesh is noticed"); p.input_fixed_meshlines.push_back({ (Axis) ax, c }); }); if(b) { has_lines(*b, want); sym_assert(b->global_params->get_current_state().input_fixed_meshlines.empty() & b->global_params->get_current_state().has_grid_already, "an old mesh is noticed"); }
}
SYM_CASE(old, 0, "which axes have old lines, kept or not") {
	int f = (int) sym_pick("axes", 0, 7), e = (int) sym_pick("empty", 0, 1); std::vector<double> old[3], none[3]; for(int a = 0; a < 3; ++a) if(f >> a & 1) old[a] = { sym_grid(("o" + std::to_string(a)).c_str(), -8000, 8000, -3) };
	ParserFromCsx::Params pp; pp.keep_old_mesh = sym_pick("keep", 0, 1); auto b = parse("<ContinuousStructure><RectilinearGrid>" + lines(old, e) + "</RectilinearGrid></ContinuousStructure>", pp, [&](Params& p) { sym_assert(p.has_grid_already == (f != 0), "an old mesh is noticed exactly when there is one"); });
	if(b) { if(pp.keep_old_mesh) has_lines(*b, old); else has_lines(*b, none); }
}
SYM_CASE(shortest, 0, "lists of one digit each on any axes, kept or read or not") {
	int f = (int) sym_pick("axes", 0, 7), d = (int) sym_pick("digit", 0, 9); std::string s; std::vector<double> v[3], none[3]; for(int a = 0; a < 3; ++a) if(f >> a & 1) { int k = (d + a) % 10; v[a] = { (double) k }; s += std::string("<") + NODE[a] + ">" + (char) ('0' + k) + "</" + NODE[a] + ">"; }
	ParserFromCsx::Params pp; pp.keep_old_mesh = sym_pick("keep", 0, 1); pp.read_oemsh_params = sym_pick("read", 0, 1); bool old = sym_pick("old", 0, 1);
	auto b = parse((old ? "" : "<OpenEMSH><FixedMeshlines>" + s + "</FixedMeshlines></OpenEMSH>") + "<ContinuousStructure><RectilinearGrid>" + (old ? s : "") + "</RectilinearGrid></ContinuousStructure>", pp, [](Params&) {});
	if(b) { if(old ? pp.keep_old_mesh : pp.read_oemsh_params) has_lines(*b, v); else has_lines(*b, none); }
}
SYM_CASE(params, 0, "each parameter in the file or not, of any value; one changed by the caller or none; read or not") {
	int f = (int) sym_pick("given", 0, 15), o = (int) sym_pick("changed", 0, 4); Params def, w; double v[3]; for(int i = 0; i < 3; ++i) v[i] = sym_grid(("v" + std::to_string(i)).c_str(), i == 1 ? 64 : 1, 100000, -6); int64_t lmin = sym_int("lmin", 0, 1000000); double c = sym_grid("c", 1, 100000, -6);
	ParserFromCsx::Params pp; pp.read_oemsh_params = sym_pick("read", 0, 1); std::string s;
	if(f & 1) s += attr("ProximityLimit", v[0]); if(f & 2) s += attr("Smoothness", v[1]); if(f & 4) s += attr("dmax", v[2]); if(f & 8) s += attr("lmin", (double) lmin);
	if(pp.read_oemsh_params) { if(f & 1) w.proximity_limit = v[0]; if(f & 2) w.smoothness = v[1]; if(f & 4) w.dmax = v[2]; if(f & 8) w.lmin = (size_t) lmin; }
	auto change = [&](Params& p) { if(o == 1) p.proximity_limit = c; if(o == 2) p.smoothness = c; if(o == 3) p.dmax = c; if(o == 4) p.diagonal_dmax = c; };
	auto eq = [](Params const& a, Params const& b) { return (a.proximity_limit == b.proximity_limit) & (a.smoothness == b.smoothness) & (a.dmax == b.dmax) & (a.lmin == b.lmin) & (a.diagonal_lmin == b.diagonal_lmin) & (a.diagonal_dmax == b.diagonal_dmax) & (a.consecutive_diagonal_minimal_angle == b.consecutive_diagonal_minimal_angle); };
	auto b = parse("<OpenEMSH><GlobalParams" + s + "/></OpenEMSH><openEMS><ContinuousStructure/></openEMS>", pp, [&](Params& p) { sym_assert(eq(p, w), "parameters are those of the file, else the defaults"); change(p); });
	change(w); if(b) sym_assert(eq(b->global_params->get_current_state(), w), "the caller's parameters go above those of the file"); (void) def;
}
SYM_CASE(endless, 0, "each parameter of the mesher in the file or not, of any value (k/64, |k| <= 1000), read or not") {
	int f = (int) sym_pick("given", 0, 7); double v[3] { 1, 2, 2.5 }; static char const* const as[] = { "ProximityLimit", "Smoothness", "dmax" }; ParserFromCsx::Params pp; pp.read_oemsh_params = sym_pick("read", 0, 1); std::string s;
	for(int i = 0; i < 3; ++i) if(f >> i & 1) { v[i] = sym_grid(as[i], -1000, 1000, -6); s += attr(as[i], v[i]); }
	bool fine = !pp.read_oemsh_params || ((v[0] >= 0) & (v[1] >= 1) & (v[2] > 0)); parse("<OpenEMSH><GlobalParams" + s + "/></OpenEMSH><ContinuousStructure/>", pp, [](Params&) {}, fine);
}
SYM_CASE(refused, 0, "11 kinds of files that cannot be read") {
	int k = (int) sym_pick("kind", 0, 10); ParserFromCsx::Params pp; bool keep = sym_pick("keep", 0, 1), read = sym_pick("read", 0, 1); pp.keep_old_mesh = keep; pp.read_oemsh_params = read;
	static char const* const xml[] = { "", "<openEMS><Contin", "<openEMS/>", "<openEMS><ContinuousStructure CoordSystem=\"1\"/></openEMS>", "<Other><ContinuousStructure/></Other>",
		"<ContinuousStructure><RectilinearGrid><XLines>1,b,3</XLines></RectilinearGrid></ContinuousStructure>", "<ContinuousStructure><RectilinearGrid><ZLines>1,,3</ZLines></RectilinearGrid></ContinuousStructure>",
		"<OpenEMSH><FixedMeshlines><YLines>x</YLines></FixedMeshlines></OpenEMSH><ContinuousStructure/>", "<ContinuousStructure CoordSystem=\"0\"/>",
		"<ContinuousStructure><RectilinearGrid><YLines>1,1e999</YLines></RectilinearGrid></ContinuousStructure>", "<OpenEMSH><FixedMeshlines><XLines>-1e999</XLines></FixedMeshlines></OpenEMSH><ContinuousStructure/>" };
	bool fine = k == 8 || (!keep && (k == 5 || k == 6 || k == 9)) || (!read && (k == 7 || k == 10)); parse(xml[k], pp, [](Params&) {}, fine);
}
static std::string const BOX = "<Primitives><Box><P1 X=\"1\" Y=\"2\" Z=\"3\"/><P2 X=\"11\" Y=\"22\" Z=\"33\"/></Box></Primitives>";
static Material::Type kind(double e, double m, double k) { return e == 1 && m == 1 && k == 0 ? Material::Type::AIR : e == 1 && m == 1 && k > 0 ? Material::Type::CONDUCTOR : Material::Type::DIELECTRIC; }
SYM_CASE(materials, 0, "4 kinds of materials and the background, each constant given or not, of any value >= its least (eighths, k <= 8000)") {
	int k = (int) sym_pick("kind", 0, 4), f = (int) sym_pick("given", 0, 15); double v[4] { 1, 1, 0, 0 }; static char const* const as[] = { "Epsilon", "Mue", "Kappa", "Sigma" }; std::string s; for(int i = 0; i < 4; ++i) if(f >> i & 1) { v[i] = sym_grid(as[i], i < 2 ? 8 : 0, 8000, -3); s += attr(as[i], v[i]); }
	static char const* const kinds[] = { "Material", "DispersiveMaterial", "DebyeMaterial", "LorentzMaterial" }; auto want = kind(v[0], v[1], v[2]);
	std::string props = k == 4 ? "<Metal Name=\"m\">" + BOX + "</Metal>" : std::string("<") + kinds[k] + " Name=\"m\"><Property" + s + "/>" + BOX + "</" + kinds[k] + ">";
	auto b = parse("<ContinuousStructure>" + (k == 4 ? "<BackgroundMaterial" + s + "/>" : std::string()) + "<Properties>" + props + "</Properties></ContinuousStructure>", {}, [](Params&) {}); if(!b) return;
	sym_assert((b->material != nullptr) == (k == 4), "the background is that of the file"); if(k == 4 && b->material) sym_assert(b->material->type == want, "a material's kind follows from its constants");
	for(auto pl : AllPlane) { auto& ps = b->get_polygons(pl); sym_assert(ps.size() == 1 && ps[0]->material && ps[0]->material->name == "m", "polygons have the material of their property"); if(k != 4 && ps.size() == 1 && ps[0]->material) sym_assert(ps[0]->material->type == want, "a material's kind follows from its constants"); }
}
SYM_CASE(colors, 0, "any colours, given or not, and whose they are") {
	int f = (int) sym_pick("given", 0, 3); int c[2][4]; static char const* const ns[] = { "FillColor", "EdgeColor" }; static char const* const as[] = { "R", "G", "B", "a" }; std::string s;
	for(int i = 0; i < 2; ++i) if(f >> i & 1) { s += std::string("<") + ns[i]; for(int j = 0; j < 4; ++j) { c[i][j] = (int) sym_int((std::string(ns[i]) + as[j]).c_str(), 0, 255); s += attr(as[j], (double) c[i][j]); } s += "/>"; }
	static char const* const kinds[] = { "Metal", "Material", "Excitation", "ConductingSheet" }; std::string n = kinds[sym_pick("kind", 0, 3)];
	auto b = parse("<ContinuousStructure><Properties><" + n + " Name=\"m\">" + s + BOX + "</" + n + "></Properties></ContinuousStructure>", {}, [](Params&) {}); if(!b) return; auto& ps = b->get_polygons(XY); if(ps.size() != 1 || !ps[0]->material) { sym_assert(false, "polygons have the material of their property"); return; }
	auto& m = *ps[0]->material; for(int i = 0; i < 2; ++i) { auto& o = i ? m.edge_color : m.fill_color; sym_assert(o.has_value() == bool(f >> i & 1), "a material has the colours given"); if(o && f >> i & 1) sym_assert((o->r == c[i][0]) & (o->g == c[i][1]) & (o->b == c[i][2]) & (o->a == c[i][3]), "a material has the colours given"); }
}
