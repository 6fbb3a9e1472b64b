// Wrappers for the library calls through which numbers cross text (std::from_chars,
// pugixml attributes). A harness writes a number as the placeholder text made by
// sym_text(); reading that text back yields the symbolic value. Digit
// formatting and parsing themselves are outside the model (trusted libraries).
#include "sym.h"
#include <charconv>
#include <cstring>
#include <string>
#include <pugixml.hpp>

struct Expr;
extern "C" {
extern Expr* __sym_args[64]; extern Expr* __sym_ret[64]; extern void* __sym_callee;
Expr* __sym_load(void* p, int64_t size, int isD, int w);
void __sym_store(void* p, int64_t size, Expr* s);
void __sym_clear(void* p, int64_t n);
int symrt_find_text(char const* b, char const* e);
void* symrt_text_expr(int i);
double symrt_text_val(int i);
int symrt_enter(); void symrt_leave();
void symrt_pin(void* e);
void* symrt_double_to_int(void* e, double v, int w, int sg);
char const* symrt_new_text(void* e, double v);
void* symrt_uint_to_double(void* e, unsigned long v);
bool symrt_exact_to(void* e, int ex);
}
struct In { In() { symrt_enter(); } ~In() { symrt_leave(); } };
static int find(char const* s) { return symrt_find_text(s, s + strlen(s)); }

extern "C" {
std::from_chars_result __symw_from_chars(char const* b, char const* e, double* out, std::chars_format f) {
	__sym_callee = nullptr; In in;
	if(int i = symrt_find_text(b, e); i >= 0) {
		*out = symrt_text_val(i);
		__sym_store(out, 8, (Expr*) symrt_text_expr(i));
		__sym_ret[0] = __sym_ret[1] = nullptr;
		return { e, std::errc() };
	}
	auto r = std::from_chars(b, e, *out, f);
	if(r.ec == std::errc()) __sym_clear(out, 8);
	__sym_ret[0] = __sym_ret[1] = nullptr;
	return r;
}
// The shortest text that reads back as the same number.
std::to_chars_result __symw_to_chars(char* b, char* e, double v) {
	__sym_callee = nullptr; In in;
	Expr* s = __sym_args[2];
	__sym_ret[0] = __sym_ret[1] = nullptr;
	std::to_chars_result r;
	if(s) {
		char const* t = symrt_new_text(s, v); size_t n = strlen(t);
		if((size_t) (e - b) < n) return { e, std::errc::value_too_large };
		memcpy(b, t, n); r = { b + n, std::errc() };
	} else r = std::to_chars(b, e, v);
	if(r.ec == std::errc()) __sym_clear(b, r.ptr - b);
	return r;
}
// "%f": six decimals. Exact for multiples of 2^-6, one path per value for others.
std::string __symw_to_string(double v) {
	__sym_callee = nullptr; In in;
	Expr* s = __sym_args[1];
	__sym_ret[0] = __sym_ret[1] = nullptr;
	if(s && symrt_exact_to(s, -6)) return symrt_new_text(s, v);
	if(s) symrt_pin(s);
	char b[400]; snprintf(b, sizeof b, "%f", v); return b;
}
double __symw_pugi_as_double(pugi::xml_attribute const* a, double def) {
	__sym_callee = nullptr; In in;
	Expr* d = __sym_args[1];
	__sym_ret[0] = nullptr;
	if(!*a) { __sym_ret[0] = d; return def; }
	if(int i = find(a->value()); i >= 0) { __sym_ret[0] = (Expr*) symrt_text_expr(i); return symrt_text_val(i); }
	return a->as_double(def);
}
unsigned __symw_pugi_as_uint(pugi::xml_attribute const* a, unsigned def) {
	__sym_callee = nullptr; In in;
	Expr* d = __sym_args[1];
	__sym_ret[0] = nullptr;
	if(!*a) { __sym_ret[0] = d; return def; }
	if(int i = find(a->value()); i >= 0) {
		auto* e = symrt_text_expr(i); double v = symrt_text_val(i);
		__sym_ret[0] = e ? (Expr*) symrt_double_to_int(e, v, 32, 0) : nullptr;
		return (unsigned) (int64_t) v;
	}
	return a->as_uint(def);
}
bool __symw_pugi_as_bool(pugi::xml_attribute const* a, bool def) {
	__sym_callee = nullptr; In in;
	symrt_pin(__sym_args[1]); __sym_ret[0] = nullptr;
	return a->as_bool(def);
}
bool __symw_pugi_set_double(pugi::xml_attribute* a, double v) {
	__sym_callee = nullptr; In in;
	Expr* e = __sym_args[1];
	__sym_ret[0] = nullptr;
	if(!e) return a->set_value(v);
	return a->set_value(symrt_new_text(e, v));
}
bool __symw_pugi_set_ulong(pugi::xml_attribute* a, unsigned long v) {
	__sym_callee = nullptr; In in;
	Expr* e = __sym_args[1];
	__sym_ret[0] = nullptr;
	void* d = e ? symrt_uint_to_double(e, v) : nullptr; // null once pinned
	if(!d) return a->set_value(v);
	return a->set_value(symrt_new_text(d, (double) v));
}
}
