// Harness API. The same harness source is compiled twice: with the symbolic
// pass (linked with symrt: inputs are symbolic) and natively with the
// project's own compiler (linked with symnat: inputs come from a file).
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
// Integer input in [lo, hi].
int64_t sym_int(char const* name, int64_t lo, int64_t hi);
// Integer input in [lo, hi] that is pinned at once: one path per value.
int64_t sym_pick(char const* name, int64_t lo, int64_t hi);
bool sym_bool(char const* name);
// k * 2^exp with k in [lo, hi].
double sym_grid(char const* name, int64_t lo, int64_t hi, int exp);
// Any IEEE double: all bit patterns.
double sym_double(char const* name);
void sym_assume(bool c);
void sym_assert(bool c, char const* msg);
// Vacuity witness: the check fails as inconclusive if a declared label is never reached.
void sym_cover(char const* label);
// Value compared between the symbolic run and the native replay of the same inputs.
void sym_observe_int(int64_t v);
void sym_observe_double(double v);
// Register/lookup of placeholder attribute strings ("@name") standing for a number.
char const* sym_text(char const* name, double v);
// Declare how the rest of a known deviation is tagged ("" = none): an assertion
// that fails while a tag is set is reported under this tag.
void sym_tag(char const* tag);
void sym_stop(void); // end this path here
void sym_register(char const* name, void (*fn)(void), char const* bounds, int tier);
}

// SYM_CASE(name, tier, "bounds text") { body }   tier: 0 = quick+thorough, 1 = thorough only, 2 = quick only
#define SYM_CASE(name, tier, bounds) \
	static void symcase_##name(); \
	__attribute__((constructor)) static void sym_reg_##name() { sym_register(#name, symcase_##name, bounds, tier); } \
	static void symcase_##name()
