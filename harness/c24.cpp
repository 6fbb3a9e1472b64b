// C24: geometry read from a file.
#include "csx.hpp"
#include <limits>
using namespace domain;

struct P3 { double c[3]; };
struct Want { int plane; double z[2], b[2][2]; size_t prio; std::string name; std::vector<Point> outline; bool round = false; };
static size_t const MAXP = std::numeric_limits<size_t>::max();
static std::string xyz(char const* tag, P3 const& p) { std::string s = std::string("<") + tag; s += attr("X", p.c[0]); s += attr("Y", p.c[1]); s += attr("Z", p.c[2]); return s + "/>"; }
static std::string file(std::string const& props) { return "<openEMS><ContinuousStructure CoordSystem=\"0\"><Properties>" + props + "</Properties></ContinuousStructure></openEMS>"; }
static std::string metal(std::string const& prims) { return "<Metal Name=\"m\"><Primitives>" + prims + "</Primitives></Metal>"; }
// coordinates: symbolic on one axis, fixed on the others
static int free_axis; static double coord(char const* name, int axis, double fixed) { return axis == free_axis ? sym_grid(name, -4000, 4000, -2) : fixed; }
static P3 point(char const* name, double x, double y, double z) { P3 p; std::string n = name; p.c[0] = coord((n + "x").c_str(), 0, x); p.c[1] = coord((n + "y").c_str(), 1, y); p.c[2] = coord((n + "z").c_str(), 2, z); return p; }
static void minmax(double a, double b, double* o) { o[0] = a < b ? a : b; o[1] = a < b ? b : a; }
static Want want(int plane, double lo0, double hi0, double lo1, double hi1, double z0, double z1, size_t prio, std::string name) { Want w; w.plane = plane; minmax(lo0, hi0, w.b[0]); minmax(lo1, hi1, w.b[1]); minmax(z0, z1, w.z); w.prio = prio; w.name = name; return w; }
struct Flags { bool on[3]; };
static Flags flags() { int f = (int) sym_pick("planes", 0, 7); return { { (f & 1) == 0, (f & 2) == 0, (f & 4) == 0 } }; }
// lines wanted on each axis, in order, repeats dropped
static void judge(std::string const& xml, Flags const& f, std::vector<Want> const& ws, std::vector<std::pair<int, double>> const& lines, Material::Type type = Material::Type::CONDUCTOR) {
	Caretaker::singleton().reset(); Scratch file; file.write(xml);
	ParserFromCsx::Params pp; pp.with_yz = f.on[0]; pp.with_zx = f.on[1]; pp.with_xy = f.on[2];
	auto r = ParserFromCsx::run(file.name, pp); sym_assert(r.has_value(), "the file is read"); if(!r.has_value()) return;
	auto& board = **r; size_t k[3] {};
	for(auto const& w : ws) {
		if(!f.on[w.plane]) continue;
		auto const& ps = board.get_polygons((Plane) w.plane); sym_assert(ps.size() > k[w.plane], "every primitive has a polygon in every plane it shows in"); if(ps.size() <= k[w.plane]) return;
		auto const& p = *ps[k[w.plane]++];
		sym_assert((p.priority == w.prio) & (p.name == w.name) & (p.plane == (Plane) w.plane), "a polygon has its primitive's priority and name"); sym_assert(p.material && p.material->type == type, "a polygon has its property's material");
		auto eq = [&](double a, double b) { return w.round ? near(a, b) : a == b; };
		sym_assert((p.z_placement.min.value() == w.z[0]) & (p.z_placement.max.value() == w.z[1]), "a polygon reaches as far across its plane as its solid");
		sym_assert(eq(p.bounding[XMIN].value(), w.b[0][0]) & eq(p.bounding[XMAX].value(), w.b[0][1]) & eq(p.bounding[YMIN].value(), w.b[1][0]) & eq(p.bounding[YMAX].value(), w.b[1][1]), "a polygon reaches as far in its plane as its solid");
		if(!w.outline.empty()) { sym_assert(p.points.size() == w.outline.size(), "an outline has its vertices"); if(p.points.size() == w.outline.size()) for(size_t i = 0; i < w.outline.size(); ++i) sym_assert((p.points[i]->x.value() == w.outline[i].x.value()) & (p.points[i]->y.value() == w.outline[i].y.value()), "an outline has its vertices"); }
	}
	for(int p = 0; p < 3; ++p) sym_assert(board.get_polygons((Plane) p).size() == k[p], "nothing else is added");
	board.add_fixed_meshline_policies();
	for(auto a : AllAxis) {
		std::vector<double> want; for(auto& l : lines) if(l.first == (int) a) { bool known = false; for(double v : want) known = known || v == l.second; if(!known) want.push_back(l.second); }
		auto const& got = board.get_meshline_policies(a); sym_assert(got.size() == want.size(), "fixed lines are those of flat polygons and points"); if(got.size() != want.size()) return;
		for(size_t i = 0; i < want.size(); ++i) sym_assert(got[i]->coord.value() == want[i], "fixed lines are those of flat polygons and points");
	}
}
static void solid(std::vector<Want>& ws, P3 const& lo, P3 const& hi, size_t prio, std::string name) { for(int p = 0; p < 3; ++p) { int h = view(p, 0), v = view(p, 1), z = view(p, 2); ws.push_back(want(p, lo.c[h], hi.c[h], lo.c[v], hi.c[v], lo.c[z], hi.c[z], prio, name)); } }
SYM_CASE(boxes, 0, "a box and a multibox of 2 boxes, one axis symbolic (|k| <= 4000 quarters), any planes processed") {
	free_axis = (int) sym_pick("axis", 0, 2); auto f = flags(); std::vector<Want> ws;
	P3 a = point("a", 1, 2, 3), b = point("b", 11, 22, 33), c = point("c", 5, 50, 7), d = point("d", -5, 60, 3);
	solid(ws, a, b, 3, "m::0"); solid(ws, b, c, 7, "m::1"); solid(ws, a, d, 7, "m::1");
	std::string s = "<Box Priority=\"3\">" + xyz("P1", a); s += xyz("P2", b) + "</Box><MultiBox Priority=\"7\">"; s += xyz("StartP", b); s += xyz("EndP", c); s += xyz("StartP", a); s += xyz("EndP", d) + "</MultiBox>";
	judge(file(metal(s)), f, ws, {});
}
static std::string vertices(std::vector<Point> const& v) { std::string s; for(auto& p : v) { s += "<Vertex" + attr("X1", p.x.value()); s += attr("X2", p.y.value()) + "/>"; } return s; }
// a triangle in the plane across normdir, one coordinate direction symbolic
static std::vector<Point> tri(int dir) { double x0 = dir == 0 ? sym_grid("t0", -4000, 4000, -2) : 1, x1 = dir == 0 ? sym_grid("t1", -4000, 4000, -2) : 21, y0 = dir == 1 ? sym_grid("t0", -4000, 4000, -2) : 3, y1 = dir == 1 ? sym_grid("t1", -4000, 4000, -2) : 43; return { { x0, y0 }, { x1, y0 }, { 7, y1 } }; }
static void extent(std::vector<Point> const& v, int k, double* o) { for(size_t i = 0; i < v.size(); ++i) { double c = k ? v[i].y.value() : v[i].x.value(); if(!i || c < o[0]) o[0] = c; if(!i || c > o[1]) o[1] = c; } }
// planes a normal direction leads to
static int plane_of(int n) { return n; } // X: YZ, Y: ZX, Z: XY
static void extruded(bool flat) {
	int n = (int) sym_pick("normdir", 0, 3), dir = (int) sym_pick("dir", 0, 2); auto f = flags(); auto v = tri(dir);
	double e = dir == 2 ? sym_grid("elevation", -4000, 4000, -2) : 5, l = flat ? 0 : dir == 2 ? sym_grid("length", -4000, 4000, -2) : 9;
	std::vector<Want> ws; std::vector<std::pair<int, double>> lines;
	if(n < 3) {
		int p = plane_of(n); double lo[3], hi[3], b[2]; extent(v, 0, b); lo[view(p, 0)] = b[0]; hi[view(p, 0)] = b[1]; extent(v, 1, b); lo[view(p, 1)] = b[0]; hi[view(p, 1)] = b[1]; lo[n] = e; hi[n] = e + l;
		for(int q = 0; q < 3; ++q) { if(q != p && l == 0) continue; int h = view(q, 0), w = view(q, 1), z = view(q, 2); ws.push_back(want(q, lo[h], hi[h], lo[w], hi[w], lo[z], hi[z], 4, "m::0")); if(q == p) ws.back().outline = v; }
		bool shown = f.on[0] | f.on[1] | f.on[2]; (void) shown; if(flat) lines.push_back({ n, e });
	}
	std::string s = std::string(flat ? "<Polygon" : "<LinPoly") + attr("Priority", "4") + attr("NormDir", std::to_string(n).c_str()); s += attr("Elevation", e); if(!flat) s += attr("Length", l); s += ">" + vertices(v); s += flat ? "</Polygon>" : "</LinPoly>";
	judge(file(metal(s)), f, ws, lines);
}
SYM_CASE(linpoly, 0, "an extruded triangle, one direction of its vertices or its elevation and length symbolic (|k| <= 4000 quarters), any normal, any planes processed") { extruded(false); }
SYM_CASE(polygon, 0, "a flat triangle, one direction of its vertices or its elevation symbolic, any normal, any planes processed") { extruded(true); }
SYM_CASE(sphere, 0, "a sphere, one coordinate of its centre symbolic, 3 radiuses, any planes processed") {
	free_axis = (int) sym_pick("axis", 0, 2); auto f = flags(); static double const rs[] = { 1, 2.5, 10 }; double r = rs[sym_pick("r", 0, 2)]; P3 c = point("c", 1, 2, 3), lo = c, hi = c; for(int i = 0; i < 3; ++i) { lo.c[i] -= r; hi.c[i] += r; }
	std::vector<Want> ws; solid(ws, lo, hi, 2, "m::0"); for(auto& w : ws) w.round = true;
	judge(file(metal("<Sphere Priority=\"2\"" + attr("Radius", r) + ">" + xyz("Center", c) + "</Sphere>")), f, ws, {});
}
SYM_CASE(cylinder, 0, "a cylinder along any axis, its ends or one coordinate of its axis symbolic, 3 radiuses, any planes processed") {
	int along = (int) sym_pick("along", 0, 2); free_axis = (int) sym_pick("axis", 0, 2); auto f = flags(); static double const rs[] = { 1, 2.5, 10 }; double r = rs[sym_pick("r", 0, 2)];
	P3 a = point("a", 1, 2, 3), b = a; b.c[along] = along == free_axis ? sym_grid("b", -4000, 4000, -2) : 40; sym_assume(a.c[along] != b.c[along]);
	P3 lo = a, hi = b; for(int i = 0; i < 3; ++i) if(i != along) { lo.c[i] -= r; hi.c[i] += r; }
	std::vector<Want> ws; solid(ws, lo, hi, 2, "m::0"); for(auto& w : ws) w.round = w.plane == along;
	std::string s = "<Cylinder Priority=\"2\"" + attr("Radius", r) + ">"; s += xyz("P1", a); s += xyz("P2", b) + "</Cylinder>";
	judge(file(metal(s)), f, ws, {});
}
SYM_CASE(tilted, 0, "a cylinder along no axis") {
	free_axis = 3; P3 a = point("a", 1, 2, 3), b = point("b", 1, 2, 3); int k = (int) sym_pick("k", 0, 2); b.c[k] = sym_grid("b0", -4000, 4000, -2); b.c[(k + 1) % 3] = sym_grid("b1", -4000, 4000, -2); sym_assume((b.c[k] != a.c[k]) & (b.c[(k + 1) % 3] != a.c[(k + 1) % 3]));
	std::string s = "<Cylinder Priority=\"2\" Radius=\"4\">"; s += xyz("P1", a); s += xyz("P2", b) + "</Cylinder>"; judge(file(metal(s)), flags(), {}, {});
}
SYM_CASE(points, 0, "2 points, one axis symbolic, any planes processed") {
	free_axis = (int) sym_pick("axis", 0, 2); auto f = flags(); P3 a = point("a", 1, 2, 3), b = point("b", 1, 7, 3); std::vector<std::pair<int, double>> lines;
	for(auto& p : { a, b }) for(int i = 0; i < 3; ++i) { bool shown = false; for(int q = 0; q < 3; ++q) shown = shown || (f.on[q] && q != i); if(shown) lines.push_back({ i, p.c[i] }); }
	judge(file(metal(xyz("Point", a) + xyz("Point", b))), f, {}, lines);
}
SYM_CASE(curve, 0, "a curve of 3 vertices, one axis symbolic, any planes processed") {
	free_axis = (int) sym_pick("axis", 0, 2); auto f = flags(); std::vector<P3> v { point("a", 1, 2, 3), point("b", 11, -7, 33), point("c", 5, 50, 7) }; std::vector<Want> ws;
	for(int p = 0; p < 3; ++p) { double lo[3], hi[3]; for(int i = 0; i < 3; ++i) { lo[i] = hi[i] = v[0].c[i]; for(auto& q : v) { if(q.c[i] < lo[i]) lo[i] = q.c[i]; if(q.c[i] > hi[i]) hi[i] = q.c[i]; } }
		int h = view(p, 0), w = view(p, 1), z = view(p, 2); ws.push_back(want(p, lo[h], hi[h], lo[w], hi[w], lo[z], hi[z], MAXP, "m::0")); }
	std::string s = "<Curve Priority=\"2\">"; for(auto& p : v) s += xyz("Vertex", p); s += "</Curve>"; judge(file(metal(s)), f, ws, {});
}
// Which primitives count, and under which name.
SYM_CASE(skipped, 0, "10 kinds of properties and 14 kinds of primitives, transformed or not, before a box at any place") {
	free_axis = 0; static char const* const kinds[] = { "Polyhedron", "PolyhedronReader", "RotPoly", "SphericalShell", "CylindricalShell", "Wire", "User-Defined", "Other", "Box", "Box", "Polygon", "LinPoly", "Sphere", "Curve" };
	int k = (int) sym_pick("kind", 0, 13); bool moved = k >= 9; P3 a = point("a", 1, 2, 3), b = point("b", 11, 22, 33); std::vector<Want> ws;
	if(k == 8) solid(ws, a, b, 1, "m::0"); solid(ws, a, b, 5, "m::1"); solid(ws, a, b, 6, "n::3"); // the primitive of an unsupported property is counted
	std::string in = xyz("P1", a); in += xyz("P2", b); if(moved) in = "<Transformation><Translate Argument=\"1,2,3\"/></Transformation><Vertex X1=\"1\" X2=\"1\"/><Vertex X1=\"1\" X2=\"2\"/><Vertex X1=\"3\" X2=\"2\"/>" + in;
	std::string s = "<Metal Name=\"m\"><Primitives><" + std::string(kinds[k]) + " Priority=\"1\">" + in + "</" + kinds[k] + "><Box Priority=\"5\">" + xyz("P1", a); s += xyz("P2", b); s += "</Box></Primitives></Metal><DumpBox Name=\"d\"><Primitives><Box Priority=\"9\">" + xyz("P1", a); s += xyz("P2", b); s += "</Box></Primitives></DumpBox><Metal Name=\"n\"><Primitives><Box Priority=\"6\">" + xyz("P1", a); s += xyz("P2", b) + "</Box></Primitives></Metal>";
	judge(file(s), { { true, true, true } }, ws, {});
}
SYM_CASE(priority, 0, "any priority (< 2^31) under 12 kinds of properties") {
	static char const* const kinds[] = { "Metal", "ConductingSheet", "LumpedElement", "Excitation", "ProbeBox", "Material", "DispersiveMaterial", "DebyeMaterial", "LorentzMaterial", "DumpBox", "ResBox", "DiscMaterial" };
	int k = (int) sym_pick("kind", 0, 11); int64_t prio = sym_int("priority", 0, ((int64_t) 1 << 31) - 1); free_axis = 3; P3 a = point("a", 1, 2, 3), b = point("b", 11, 22, 33);
	auto type = k < 2 ? Material::Type::CONDUCTOR : k < 5 ? Material::Type::PORT : Material::Type::AIR; std::vector<Want> ws; if(k < 9) solid(ws, a, b, k >= 2 && k < 5 ? MAXP : (size_t) prio, "m::0");
	std::string s = std::string("<") + kinds[k] + " Name=\"m\">" + (k < 5 ? "" : "<Property/>") + "<Primitives><Box" + attr("Priority", (double) prio); s += ">" + xyz("P1", a); s += xyz("P2", b) + "</Box></Primitives></" + kinds[k] + ">";
	judge(file(s), { { true, true, true } }, ws, {}, type);
}
SYM_CASE(hollow, 0, "primitives without vertices") {
	static char const* const kinds[] = { "LinPoly", "Polygon", "Curve" }; int k = (int) sym_pick("kind", 0, 2), n = (int) sym_pick("n", 0, 2); free_axis = 3; P3 a = point("a", 1, 2, 3), b = point("b", 11, 22, 33); std::vector<Want> ws; solid(ws, a, b, 5, "m::1");
	std::string s = std::string("<") + kinds[k] + " Priority=\"1\"" + attr("NormDir", std::to_string(n).c_str()) + " Elevation=\"1\" Length=\"2\"/><Box Priority=\"5\">" + xyz("P1", a); s += xyz("P2", b) + "</Box>"; judge(file(metal(s)), { { true, true, true } }, ws, {});
}
