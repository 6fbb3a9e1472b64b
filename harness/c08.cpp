// C08: materials: total order and deduction.
#include "common.hpp"
#include "domain/material.hpp"
using namespace domain;
using T = Material::Type;

static int rank_of(T t) { return t == T::PORT ? 3 : t == T::CONDUCTOR ? 2 : t == T::DIELECTRIC ? 1 : 0; }
SYM_CASE(order, 0, "every triple of material types") {
	auto ta = (T) sym_int("a", 0, 3), tb = (T) sym_int("b", 0, 3), tc = (T) sym_int("c", 0, 3);
	Material a(ta, "a"), b(tb, "b"), c(tc, "c");
	sym_assert((a < b) == (rank_of(ta) < rank_of(tb)) && (a > b) == (rank_of(ta) > rank_of(tb)) && (a <= b) == (rank_of(ta) <= rank_of(tb)) && (a >= b) == (rank_of(ta) >= rank_of(tb)), "PORT > CONDUCTOR > DIELECTRIC > AIR");
	sym_assert(std::is_eq(a <=> b) == (ta == tb), "materials compare equivalent iff same type");
	if(a < b && b < c) sym_assert(a < c, "the order of materials is transitive");
	sym_assert((a < b) == (b > a), "the order of materials is antisymmetric");
}
SYM_CASE(deduction, 0, "all triples of doubles, NaN and infinities included") {
	double e = sym_double("epsilon"), m = sym_double("mue"), k = sym_double("kappa");
	auto t = Material::deduce_type(e, m, k);
	T want = T::DIELECTRIC;
	if(e == 1 && m == 1 && k == 0) want = T::AIR;
	else if(e == 1 && m == 1 && k > 0) want = T::CONDUCTOR;
	sym_assert(t == want, "vacuum is AIR, vacuum with conductivity is CONDUCTOR, anything else is DIELECTRIC");
}
SYM_CASE(defaults, 0, "constants") {
	sym_assert(Material::deduce_type(Material::default_epsilon, Material::default_mue, Material::default_kappa) == T::AIR, "default constants describe air");
	sym_assert(Material::default_epsilon == 1 && Material::default_mue == 1 && Material::default_kappa == 0 && Material::default_sigma == 0, "CSXCAD defaults");
	Material p(T::PORT, "n", Material::Color { 1, 2, 3, 4 }, std::nullopt);
	sym_assert(p.type == T::PORT && p.name == "n" && p.fill_color && p.fill_color->b == 3 && !p.edge_color, "material keeps what it was given");
}
