// symrt: runtime of the concolic engine (see DESIGN.md, "Engine"). Linked with
// code compiled through sympass. Explores every feasible path of a harness
// case: each path is one native execution in a forked child, which builds the
// path condition and has z3 decide the other side of every new branch and the
// negation of every assertion.
#include "sym.h"
#include <z3.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
typedef __int128 i128;
typedef unsigned __int128 u128;

// ---------------------------------------------------------------- allocation
static int in_rt = 1; // outside of a running case everything is runtime
struct Rt { Rt() { ++in_rt; } ~Rt() { --in_rt; } };

static char* const ARENA = (char*) 0x100000000000ull;
static size_t const ARENA_SZ = 2ull << 30;
static char* arena_cur = nullptr;
static void arena_init() {
	void* p = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if(p != ARENA) { fprintf(stderr, "arena mmap failed\n"); _exit(2); }
	arena_cur = ARENA + 64;
}
static inline bool in_arena(void* p) { return (char*) p >= ARENA && (char*) p < ARENA + ARENA_SZ; }
static void* rt_alloc(size_t n, size_t al) {
	if(in_rt) { void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if(!p) abort(); return p; }
	if(al < 16) al = 16;
	arena_cur = (char*) (((u64) arena_cur + al - 1) & ~(u64) (al - 1));
	void* p = arena_cur;
	arena_cur += n ? n : 1;
	if(arena_cur > ARENA + ARENA_SZ) { fprintf(stderr, "arena exhausted\n"); _exit(77); }
	return p;
}
void* operator new(size_t n) { return rt_alloc(n, 16); }
void* operator new[](size_t n) { return rt_alloc(n, 16); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return rt_alloc(n, 16); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return rt_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return rt_alloc(n, (size_t) a); }
void* operator new[](size_t n, std::align_val_t a) { return rt_alloc(n, (size_t) a); }
void operator delete(void* p) noexcept { if(p && !in_arena(p)) free(p); }
void operator delete[](void* p) noexcept { if(p && !in_arena(p)) free(p); }
void operator delete(void* p, size_t) noexcept { if(p && !in_arena(p)) free(p); }
void operator delete[](void* p, size_t) noexcept { if(p && !in_arena(p)) free(p); }
void operator delete(void* p, std::align_val_t) noexcept { if(p && !in_arena(p)) free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { if(p && !in_arena(p)) free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if(p && !in_arena(p)) free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { if(p && !in_arena(p)) free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { if(p && !in_arena(p)) free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { if(p && !in_arena(p)) free(p); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------- options
static double opt_qtimeout = 10; // seconds per query
static u64 opt_seed = 1;
static bool opt_verbose = false;

// --------------------------------------------------------------- polynomials
static int bitlen(u128 v) { int n = 0; while(v) { ++n; v >>= 1; } return n; }
static i128 iabs(i128 v) { return v < 0 ? -v : v; }
static i128 gcd_(i128 a, i128 b) { a = iabs(a); b = iabs(b); while(b) { i128 t = a % b; a = b; b = t; } return a; }
static i128 floordiv(i128 a, i128 b) { i128 q = a / b; return (a % b && ((a < 0) != (b < 0))) ? q - 1 : q; }
static i128 ceildiv(i128 a, i128 b) { return -floordiv(-a, b); }
static const i128 BIG = (i128) 1 << 118;

struct Expr;
struct Atom { i64 lo, hi; int input; i64 conc; Expr* bv = nullptr; int w; Z3_ast z = nullptr; i64 slo, shi; };
static std::vector<Atom> atoms;
struct Mono { std::vector<u16> a; };
static std::vector<Mono> monos;
static std::map<std::vector<u16>, int> mono_ids;
static int mono_id(std::vector<u16> const& v) {
	auto it = mono_ids.find(v);
	if(it != mono_ids.end()) return it->second;
	int id = monos.size(); monos.push_back({ v }); mono_ids[v] = id; return id;
}
static bool mulok(i128 a, i128 b, i128& r) { return !__builtin_mul_overflow(a, b, &r) && iabs(r) < BIG; }
struct Range { i128 lo, hi; };
static bool rmul(Range a, Range b, Range& r) {
	i128 v[4];
	if(!mulok(a.lo, b.lo, v[0]) || !mulok(a.lo, b.hi, v[1]) || !mulok(a.hi, b.lo, v[2]) || !mulok(a.hi, b.hi, v[3])) return false;
	r = { *std::min_element(v, v + 4), *std::max_element(v, v + 4) };
	return true;
}
// Interval of a monomial from current (or static) atom intervals.
static bool mono_range(int m, bool stat, Range& r) {
	auto const& a = monos[m].a;
	r = { 1, 1 };
	for(size_t i = 0; i < a.size();) {
		size_t j = i; while(j < a.size() && a[j] == a[i]) ++j;
		Range x = stat ? Range{ atoms[a[i]].slo, atoms[a[i]].shi } : Range{ atoms[a[i]].lo, atoms[a[i]].hi };
		size_t n = j - i;
		Range p = { 1, 1 };
		for(size_t k = 0; k < n; ++k) if(!rmul(p, x, p)) return false;
		if(n % 2 == 0 && x.lo < 0 && x.hi > 0) p.lo = 0;
		if(!rmul(r, p, r)) return false;
		i = j;
	}
	return true;
}
struct Poly {
	std::vector<std::pair<int, i128>> t; // sorted by mono id, no zero coef, no constant
	i128 c = 0;
	bool isConst() const { return t.empty(); }
};
static bool padd(Poly const& a, Poly const& b, i128 kb, Poly& r) { // a + kb*b
	Poly o; i128 x;
	if(!mulok(b.c, kb, x)) return false;
	o.c = a.c + x; if(iabs(o.c) >= BIG) return false;
	size_t i = 0, j = 0;
	while(i < a.t.size() || j < b.t.size()) {
		if(j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) o.t.push_back(a.t[i++]);
		else {
			if(!mulok(b.t[j].second, kb, x)) return false;
			if(i < a.t.size() && a.t[i].first == b.t[j].first) { x += a.t[i].second; ++i; }
			if(iabs(x) >= BIG) return false;
			if(x) o.t.push_back({ b.t[j].first, x });
			++j;
		}
	}
	r = std::move(o); return true;
}
static bool pmul(Poly const& a, Poly const& b, Poly& r) {
	std::map<int, i128> m; i128 x;
	Poly o;
	if(!mulok(a.c, b.c, o.c)) return false;
	if(b.c) for(auto& [i, k] : a.t) { if(!mulok(k, b.c, x)) return false; m[i] += x; }
	if(a.c) for(auto& [i, k] : b.t) { if(!mulok(k, a.c, x)) return false; m[i] += x; }
	for(auto& [i, k] : a.t) for(auto& [j, l] : b.t) {
		if(!mulok(k, l, x)) return false;
		std::vector<u16> v = monos[i].a; v.insert(v.end(), monos[j].a.begin(), monos[j].a.end()); std::sort(v.begin(), v.end());
		if(v.size() > 8) return false;
		m[mono_id(v)] += x;
	}
	if(m.size() > 400) return false;
	for(auto& [i, k] : m) { if(iabs(k) >= BIG) return false; if(k) o.t.push_back({ i, k }); }
	r = std::move(o); return true;
}
static bool prange(Poly const& p, bool stat, Range& r) {
	r = { p.c, p.c };
	for(auto& [m, k] : p.t) {
		Range x, y; if(!mono_range(m, stat, x)) return false;
		if(!rmul(x, { k, k }, y)) return false;
		r.lo += y.lo; r.hi += y.hi;
		if(iabs(r.lo) >= BIG || iabs(r.hi) >= BIG) return false;
	}
	return true;
}
static i128 pconc(Poly const& p) {
	i128 v = p.c;
	for(auto& [m, k] : p.t) { i128 x = k; for(u16 a : monos[m].a) x *= atoms[a].conc; v += x; }
	return v;
}
static i128 maxabs(Range r) { return std::max(iabs(r.lo), iabs(r.hi)); }

// --------------------------------------------------------------- expressions
enum Op : u8 { CONST, POLYI, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, ZEXT, SEXT, TRUNC, CONCAT, EXTRACT, ITE, ICMP,
	PLE, PEQ, FCMP, BOUNDOVF,
	FCONST, FPOLY, FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FROUND, FIN };
// Value of a double expression: p/q * 2^e, |actual - that| <= err (absolute).
// exact: q is 1 and err is 0. rn: actual is the correctly rounded p/q * 2^e with
// small p and q, so that comparing two of them is comparing the rationals.
struct Num { Poly p, q; int e = 0; double err = 0; bool exact = false, rn = false, ab = false; };
struct Expr { u8 op, isD, w; u32 k32 = 0; u64 conc = 0; Expr *a = nullptr, *b = nullptr, *c = nullptr; i128 k = 0; Num* num = nullptr; Poly* ip = nullptr; Z3_ast z = nullptr; u8 truth = 0; };

static Expr* mk(u8 op, u8 isD, u8 w, u64 conc, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr) {
	Expr* e = new Expr{ op, isD, w }; e->conc = conc; e->a = a; e->b = b; e->c = c; return e;
}
static u64 mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static i64 sx(u64 v, int w) { return w >= 64 ? (i64) v : (i64) (v << (64 - w)) >> (64 - w); }
static double asd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 asb(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static Expr* cbv(u64 v, int w) { return mk(CONST, 0, w, v & mask(w)); }
static Expr* mkbool_const(bool b) { return cbv(b, 1); }

// Linear forms with known intervals (per path).
struct LForm { Poly p; i128 lo, hi; std::set<i128> ne; Z3_ast z = nullptr; int zw = 0; int single = -1; };
static std::vector<LForm> lforms;
static std::map<std::vector<std::pair<int, i128>>, int> lform_ids;
static int lform(Poly const& p) {
	auto it = lform_ids.find(p.t);
	if(it != lform_ids.end()) return it->second;
	LForm l; l.p.t = p.t;
	Range r; if(!prange(l.p, true, r)) r = { -BIG, BIG };
	l.lo = r.lo; l.hi = r.hi;
	if(p.t.size() == 1 && p.t[0].second == 1 && monos[p.t[0].first].a.size() == 1) l.single = monos[p.t[0].first].a[0];
	int id = lforms.size(); lforms.push_back(l); lform_ids[p.t] = id; return id;
}
static Range lrange(int L) {
	auto& l = lforms[L];
	Range r;
	if(prange(l.p, false, r)) { l.lo = std::max(l.lo, r.lo); l.hi = std::min(l.hi, r.hi); }
	while(l.lo <= l.hi && l.ne.count(l.lo)) ++l.lo;
	while(l.lo <= l.hi && l.ne.count(l.hi)) --l.hi;
	if(l.single >= 0) {
		atoms[l.single].lo = std::max<i128>(atoms[l.single].lo, l.lo); atoms[l.single].hi = std::min<i128>(atoms[l.single].hi, l.hi);
	}
	return { l.lo, l.hi };
}
static std::map<std::tuple<int, int, i128>, Expr*> pred_cache;
static Expr* pred(u8 op, int L, i128 k) {
	auto key = std::make_tuple((int) op, L, k);
	auto it = pred_cache.find(key);
	if(it != pred_cache.end()) return it->second;
	i128 v = pconc(lforms[L].p);
	Expr* e = mk(op, 0, 1, op == PLE ? v <= k : v == k);
	e->k32 = L; e->k = k;
	pred_cache[key] = e;
	return e;
}
static Expr* mkNot(Expr* e);
static void branch(Expr* e, bool c);
// p == f * g with f and g linear and non-constant, g without f's leading variable.
static bool factorPoly(Poly const& p, Poly& f, Poly& g) {
	bool quad = false;
	std::map<u16, int> sq, seen;
	for(auto& [m, k] : p.t) {
		auto& a = monos[m].a;
		if(a.size() > 2) return false;
		if(a.size() == 2) { quad = true; if(a[0] == a[1]) sq[a[0]] = 1; ++seen[a[0]]; ++seen[a[1]]; }
	}
	if(!quad) return false;
	int x = -1; for(auto& [a, n] : seen) if(!sq.count(a)) { x = a; break; }
	if(x < 0) return false;
	// p = B x + C
	Poly B, C; C.c = p.c;
	std::map<int, i128> bm;
	for(auto& [m, k] : p.t) {
		auto& a = monos[m].a;
		if(a.size() == 1 && a[0] == x) B.c += k;
		else if(a.size() == 2 && (a[0] == x || a[1] == x)) bm[mono_id({ a[0] == x ? a[1] : a[0] })] += k;
		else C.t.push_back({ m, k });
	}
	if(bm.empty()) return false;
	for(auto& [m, k] : bm) B.t.push_back({ m, k });
	i128 gc = B.c; for(auto& t : B.t) gc = gcd_(gc, t.second);
	gc = iabs(gc);
	for(auto& t : B.t) t.second /= gc; B.c /= gc;
	// C == B h ?
	int y = B.t[0].first; i128 by = B.t[0].second; u16 ya = monos[y].a[0];
	Poly h, rem = C;
	for(int it = 0; it < 64; ++it) {
		// a term of rem divisible by y
		int hit = -1; for(size_t i = 0; i < rem.t.size(); ++i) { auto& a = monos[rem.t[i].first].a; if((a.size() == 1 && a[0] == ya) || (a.size() == 2 && (a[0] == ya || a[1] == ya))) { hit = i; if(a.size() == 2) break; } }
		if(hit < 0) break;
		auto& a = monos[rem.t[hit].first].a; i128 k = rem.t[hit].second;
		if(k % by) return false;
		Poly q;
		if(a.size() == 1) q.c = k / by; else { if(a[0] == a[1]) return false; q.t.push_back({ mono_id({ a[0] == ya ? a[1] : a[0] }), k / by }); }
		Poly d; if(!pmul(q, B, d) || !padd(rem, d, -1, rem) || !padd(h, q, 1, h)) return false;
	}
	if(!rem.isConst() || rem.c != 0) return false;
	Poly xp; xp.t.push_back({ mono_id({ (u16) x }), gc });
	if(!padd(xp, h, 1, f)) return false;
	g = B;
	return true;
}
static Expr* mkEQ0(Poly const& p);
static Expr* mkLE0(Poly const& p);
// Sign of an exact non-constant polynomial, decided by branching.
static int signPoly(Poly const& n) {
	i128 v = pconc(n);
	Expr* z = mkEQ0(n); branch(z, v == 0); if(v == 0) return 0;
	Expr* l = mkLE0(n); branch(l, v <= 0);
	return v < 0 ? -1 : 1;
}
static std::map<std::pair<std::vector<std::pair<int, i128>>, i128>, int> prod_sign; // signs of products already decided on this path
// Sign of p when p is a product of two linear forms; 2 if it is not.
static int productSign(Poly const& p) {
	if(p.t.size() < 2) { // k * x * y
		if(p.c != 0 || p.t.size() != 1 || monos[p.t[0].first].a.size() != 2) return 2;
		int s = p.t[0].second < 0 ? -1 : 1;
		for(u16 a : monos[p.t[0].first].a) { Poly q; q.t.push_back({ mono_id({ a }), 1 }); s *= signPoly(q); if(!s) return 0; }
		return s;
	}
	auto key = std::make_pair(p.t, p.c);
	if(auto it = prod_sign.find(key); it != prod_sign.end()) return it->second;
	Poly f, g; int s = 2;
	if(factorPoly(p, f, g)) { s = signPoly(f); if(s) s *= signPoly(g); }
	prod_sign[key] = s;
	return s;
}
// p <= 0 / p == 0; never null (may return CONST).
static Expr* mkLE0(Poly const& p) {
	if(p.isConst()) return mkbool_const(p.c <= 0);
	if(int s = productSign(p); s != 2) return mkbool_const(s <= 0);
	if(p.t.size() >= 1) { Poly q = p; q.c -= 1; if(int s = productSign(q); s != 2) return mkbool_const(s < 0); }
	i128 g = 0; for(auto& x : p.t) g = gcd_(g, x.second);
	bool neg = p.t[0].second < 0;
	Poly l; for(auto& x : p.t) l.t.push_back({ x.first, x.second / (neg ? -g : g) });
	int L = lform(l);
	if(!neg) return pred(PLE, L, floordiv(-p.c, g));
	return mkNot(pred(PLE, L, ceildiv(p.c, g) - 1));
}
static Expr* mkEQ0(Poly const& p) {
	if(p.isConst()) return mkbool_const(p.c == 0);
	if(int s = productSign(p); s != 2) return mkbool_const(s == 0);
	i128 g = 0; for(auto& x : p.t) g = gcd_(g, x.second);
	if(p.c % g) return mkbool_const(false);
	bool neg = p.t[0].second < 0;
	if(neg) g = -g;
	Poly l; for(auto& x : p.t) l.t.push_back({ x.first, x.second / g });
	return pred(PEQ, lform(l), -p.c / g);
}
static bool isNot(Expr* e) { return e->op == XOR && e->w == 1 && e->b && e->b->op == CONST && e->b->conc == 1; }
static Expr* mkNot(Expr* e) {
	if(e->op == CONST) return mkbool_const(!e->conc);
	if(isNot(e)) return e->a;
	return mk(XOR, 0, 1, !e->conc, e, mkbool_const(true));
}
// A literal as an interval of its linear form: lo <= L <= hi.
static bool litRange(Expr* e, int& L, i128& lo, i128& hi) {
	if(e->op == PLE) { L = e->k32; lo = -BIG; hi = e->k; return true; }
	if(e->op == PEQ) { L = e->k32; lo = hi = e->k; return true; }
	if(isNot(e) && e->a->op == PLE) { L = e->a->k32; lo = e->a->k + 1; hi = BIG; return true; }
	return false;
}
// Conjunction of two literals about the same linear form, as one literal; null if it is not one.
static Expr* andLits(Expr* a, Expr* b) {
	int L, M; i128 lo, hi, lo2, hi2;
	if(!litRange(a, L, lo, hi)) { if(!isNot(a) || !litRange(b, L, lo, hi)) return nullptr; std::swap(a, b); }
	if(isNot(b) && b->a->op == PEQ && (int) b->a->k32 == L) { // an interval without one value
		i128 k = b->a->k;
		if(k < lo || k > hi) return a;
		if(lo == hi) return mkbool_const(false);
		if(k == hi) return hi - 1 == lo ? pred(PEQ, L, lo) : lo <= -BIG ? pred(PLE, L, hi - 1) : nullptr;
		if(k == lo && hi >= BIG) return mkNot(pred(PLE, L, lo));
		return nullptr;
	}
	if(!litRange(b, M, lo2, hi2) || M != L) return nullptr;
	lo = std::max(lo, lo2); hi = std::min(hi, hi2);
	if(lo > hi) return mkbool_const(false);
	if(lo == hi) return pred(PEQ, L, lo);
	if(lo <= -BIG) return pred(PLE, L, hi);
	if(hi >= BIG) return mkNot(pred(PLE, L, lo - 1));
	return nullptr;
}
static Expr* mkAnd(Expr* a, Expr* b) {
	if(a->op == CONST) return a->conc ? b : a;
	if(b->op == CONST) return b->conc ? a : b;
	if(a == b) return a;
	if(Expr* r = andLits(a, b)) return r;
	return mk(AND, 0, 1, a->conc & b->conc, a, b);
}
static Expr* mkOr(Expr* a, Expr* b) {
	if(a->op == CONST) return a->conc ? a : b;
	if(b->op == CONST) return b->conc ? b : a;
	if(a == b) return a;
	if((isNot(a) || a->op == PLE || a->op == PEQ) && (isNot(b) || b->op == PLE || b->op == PEQ))
		if(Expr* r = andLits(mkNot(a), mkNot(b))) return mkNot(r);
	return mk(OR, 0, 1, a->conc | b->conc, a, b);
}

// ------------------------------------------------------------- z3 translation
static Z3_context ctx = nullptr;
static Z3_solver solver = nullptr;
static bool solver_fp = false;
static Z3_sort fpSort = nullptr; static Z3_ast rne = nullptr;
struct Stats {
	u64 queries, sat, unsat, unknown, branches, implied, obligations, obl_interval, obl_solver, obl_concrete, obl_unknown, pins, fpq, approx, lin; double stime; };
static Stats st;
struct Input { std::string name; u8 kind; i64 lo, hi; int e; u64 val; Z3_ast z; int atom; };
static std::vector<Input> inputs;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(78); }
static void z3init() {
	if(ctx) return;
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context(cfg);
	Z3_del_config(cfg);
	Z3_set_error_handler(ctx, z3err);
	fpSort = Z3_mk_fpa_sort_double(ctx); rne = Z3_mk_fpa_rne(ctx);
}
static Z3_sort bvs(int w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast zconst(i128 v, int w) {
	// two's complement decimal string
	u128 u = (u128) v; if(w < 128) u &= ((u128) 1 << w) - 1;
	if(w > 128 && v < 0) { Z3_ast x = zconst(v, 128); return Z3_mk_sign_ext(ctx, w - 128, x); }
	char buf[64]; int n = 63; buf[n] = 0; if(!u) buf[--n] = '0';
	while(u) { buf[--n] = '0' + (int) (u % 10); u /= 10; }
	return Z3_mk_numeral(ctx, buf + n, bvs(w));
}
static int sbits(Range r) { return std::max(bitlen(r.lo < 0 ? (u128) (-(r.lo + 1)) : (u128) r.lo), bitlen(r.hi < 0 ? (u128) (-(r.hi + 1)) : (u128) r.hi)) + 1; }
static Z3_ast zfit(Z3_ast a, int from, int to) {
	if(from == to) return a;
	if(from < to) return Z3_mk_sign_ext(ctx, to - from, a);
	return Z3_mk_extract(ctx, to - 1, 0, a);
}
static Z3_ast zbv(Expr* e);
static Z3_ast zatom(int i) {
	auto& a = atoms[i];
	if(!a.z) {
		if(a.input >= 0) a.z = inputs[a.input].z;
		else { Z3_ast b = zbv(a.bv); a.z = zfit(b, a.bv->w, a.w); } // only built when bounds fit
	}
	return a.z;
}
static Z3_ast zmono(int m, int w) {
	auto const& v = monos[m].a;
	if(v.size() == 1) return zfit(zatom(v[0]), atoms[v[0]].w, w);
	Range r; int ww = w;
	if(mono_range(m, true, r)) ww = std::min(w, sbits(r));
	Z3_ast x = zfit(zatom(v[0]), atoms[v[0]].w, ww);
	for(size_t i = 1; i < v.size(); ++i) x = Z3_mk_bvmul(ctx, x, zfit(zatom(v[i]), atoms[v[i]].w, ww));
	return zfit(x, ww, w);
}
static Z3_ast zpoly(Poly const& p, int w) {
	Z3_ast s = nullptr;
	for(auto& [m, k] : p.t) {
		Z3_ast x = zmono(m, w);
		if(k == -1) x = Z3_mk_bvneg(ctx, x);
		else if(k != 1) x = Z3_mk_bvmul(ctx, zconst(k, w), x);
		s = s ? Z3_mk_bvadd(ctx, s, x) : x;
	}
	if(!s) return zconst(p.c, w);
	if(p.c) s = Z3_mk_bvadd(ctx, s, zconst(p.c, w));
	return s;
}
static Z3_ast zbool(Expr* e);
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, zconst(1, 1), zconst(0, 1)); }
static Z3_ast zbv(Expr* e) { // bit-vector of width w (w may be 1)
	if(e->w == 1) return b2bv(zbool(e));
	if(e->z) return e->z;
	Z3_ast r = nullptr;
	if(e->ip) r = zpoly(*e->ip, e->w);
	else switch(e->op) {
	case CONST: r = zconst(e->conc, e->w); break;
	case ADD: r = Z3_mk_bvadd(ctx, zbv(e->a), zbv(e->b)); break;
	case SUB: r = Z3_mk_bvsub(ctx, zbv(e->a), zbv(e->b)); break;
	case MUL: r = Z3_mk_bvmul(ctx, zbv(e->a), zbv(e->b)); break;
	case UDIV: r = Z3_mk_bvudiv(ctx, zbv(e->a), zbv(e->b)); break;
	case SDIV: r = Z3_mk_bvsdiv(ctx, zbv(e->a), zbv(e->b)); break;
	case UREM: r = Z3_mk_bvurem(ctx, zbv(e->a), zbv(e->b)); break;
	case SREM: r = Z3_mk_bvsrem(ctx, zbv(e->a), zbv(e->b)); break;
	case SHL: r = Z3_mk_bvshl(ctx, zbv(e->a), zbv(e->b)); break;
	case LSHR: r = Z3_mk_bvlshr(ctx, zbv(e->a), zbv(e->b)); break;
	case ASHR: r = Z3_mk_bvashr(ctx, zbv(e->a), zbv(e->b)); break;
	case AND: r = Z3_mk_bvand(ctx, zbv(e->a), zbv(e->b)); break;
	case OR: r = Z3_mk_bvor(ctx, zbv(e->a), zbv(e->b)); break;
	case XOR: r = Z3_mk_bvxor(ctx, zbv(e->a), zbv(e->b)); break;
	case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, zbv(e->a)); break;
	case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, zbv(e->a)); break;
	case TRUNC: r = Z3_mk_extract(ctx, e->w - 1, 0, zbv(e->a)); break;
	case EXTRACT: r = Z3_mk_extract(ctx, e->k32 + e->w - 1, e->k32, zbv(e->a)); break;
	case CONCAT: r = Z3_mk_concat(ctx, zbv(e->a), zbv(e->b)); break;
	case ITE: r = Z3_mk_ite(ctx, zbool(e->a), zbv(e->b), zbv(e->c)); break;
	default: fprintf(stderr, "zbv: op %d\n", e->op); _exit(78);
	}
	return e->z = r;
}
static Z3_ast zfp(Expr* e);
enum { P_EQ = 0, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
static bool hasFP(Expr* e) { // does the z3 form involve floating point?
	if(!e) return false;
	if(e->op == FCMP) return true;
	if(e->isD) return true;
	if(e->ip || e->op == PLE || e->op == PEQ) return false;
	return hasFP(e->a) || hasFP(e->b) || hasFP(e->c);
}
static Z3_ast zbool(Expr* e) {
	if(e->z) return e->z;
	Z3_ast r = nullptr;
	switch(e->op) {
	case CONST: r = e->conc ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
	case AND: case MUL: { Z3_ast x[2] = { zbool(e->a), zbool(e->b) }; r = Z3_mk_and(ctx, 2, x); break; }
	case OR: { Z3_ast x[2] = { zbool(e->a), zbool(e->b) }; r = Z3_mk_or(ctx, 2, x); break; }
	case XOR: case ADD: case SUB: r = isNot(e) ? Z3_mk_not(ctx, zbool(e->a)) : Z3_mk_xor(ctx, zbool(e->a), zbool(e->b)); break;
	case ITE: r = Z3_mk_ite(ctx, zbool(e->a), zbool(e->b), zbool(e->c)); break;
	case TRUNC: r = Z3_mk_eq(ctx, Z3_mk_extract(ctx, 0, 0, zbv(e->a)), zconst(1, 1)); break;
	case EXTRACT: r = Z3_mk_eq(ctx, Z3_mk_extract(ctx, e->k32, e->k32, zbv(e->a)), zconst(1, 1)); break;
	case PLE: case PEQ: {
		auto& l = lforms[e->k32];
		Range rg; int w;
		if(!prange(l.p, true, rg)) w = 126; else w = sbits(rg);
		if(w < 2) w = 2;
		// constant outside the range is decided by eval3 already
		if(!l.z || l.zw != w) { l.z = zpoly(l.p, w); l.zw = w; }
		i128 mn = -((i128) 1 << (w - 1)), mx = ((i128) 1 << (w - 1)) - 1;
		if(e->op == PLE) r = e->k >= mx ? Z3_mk_true(ctx) : e->k < mn ? Z3_mk_false(ctx) : Z3_mk_bvsle(ctx, l.z, zconst(e->k, w));
		else r = e->k > mx || e->k < mn ? Z3_mk_false(ctx) : Z3_mk_eq(ctx, l.z, zconst(e->k, w));
		break;
	}
	case ICMP: {
		Z3_ast x = zbv(e->a), y = zbv(e->b);
		switch(e->k32) {
		case P_EQ: r = Z3_mk_eq(ctx, x, y); break;
		case P_ULT: r = Z3_mk_bvult(ctx, x, y); break;
		case P_ULE: r = Z3_mk_bvule(ctx, x, y); break;
		case P_SLT: r = Z3_mk_bvslt(ctx, x, y); break;
		case P_SLE: r = Z3_mk_bvsle(ctx, x, y); break;
		}
		break;
	}
	case FCMP: {
		Z3_ast x = zfp(e->a), y = zfp(e->b);
		unsigned p = e->k32; // LLVM fcmp predicate
		std::vector<Z3_ast> o;
		if(p & 1) o.push_back(Z3_mk_fpa_eq(ctx, x, y));
		if(p & 2) o.push_back(Z3_mk_fpa_gt(ctx, x, y));
		if(p & 4) o.push_back(Z3_mk_fpa_lt(ctx, x, y));
		if(p & 8) { o.push_back(Z3_mk_fpa_is_nan(ctx, x)); o.push_back(Z3_mk_fpa_is_nan(ctx, y)); }
		r = Z3_mk_or(ctx, o.size(), o.data());
		break;
	}
	case BOUNDOVF: {
		Z3_ast x = zbv(e->a), y = zbv(e->b);
		unsigned bop = e->k32 & 0xff; bool sg = e->k32 >> 8;
		Z3_ast ok = nullptr;
		switch(bop) {
		case ADD: { Z3_ast c1 = Z3_mk_bvadd_no_overflow(ctx, x, y, sg); if(sg) { Z3_ast z[2] = { c1, Z3_mk_bvadd_no_underflow(ctx, x, y) }; ok = Z3_mk_and(ctx, 2, z); } else ok = c1; break; }
		case SUB: { Z3_ast c1 = Z3_mk_bvsub_no_underflow(ctx, x, y, sg); if(sg) { Z3_ast z[2] = { c1, Z3_mk_bvsub_no_overflow(ctx, x, y) }; ok = Z3_mk_and(ctx, 2, z); } else ok = c1; break; }
		default: { Z3_ast c1 = Z3_mk_bvmul_no_overflow(ctx, x, y, sg); if(sg) { Z3_ast z[2] = { c1, Z3_mk_bvmul_no_underflow(ctx, x, y) }; ok = Z3_mk_and(ctx, 2, z); } else ok = c1; break; }
		}
		r = Z3_mk_not(ctx, ok);
		break;
	}
	default: fprintf(stderr, "zbool: op %d w %d\n", e->op, e->w); _exit(78);
	}
	return e->z = r;
}
static Z3_ast zfp(Expr* e) {
	if(e->z) return e->z;
	Z3_ast r = nullptr;
	if(e->op == FCONST) r = Z3_mk_fpa_numeral_double(ctx, asd(e->conc), fpSort);
	else if(e->num && e->num->exact && !e->num->ab) {
		Range rg; if(!prange(e->num->p, true, rg)) { fprintf(stderr, "zfp range\n"); _exit(78); }
		int w = std::max(2, sbits(rg));
		r = Z3_mk_fpa_to_fp_signed(ctx, rne, zpoly(e->num->p, w), fpSort);
		if(e->num->e) r = Z3_mk_fpa_mul(ctx, rne, r, Z3_mk_fpa_numeral_double(ctx, ldexp(1.0, e->num->e), fpSort));
	} else switch(e->op) {
	case FADD: r = Z3_mk_fpa_add(ctx, rne, zfp(e->a), zfp(e->b)); break;
	case FSUB: r = Z3_mk_fpa_sub(ctx, rne, zfp(e->a), zfp(e->b)); break;
	case FMUL: r = Z3_mk_fpa_mul(ctx, rne, zfp(e->a), zfp(e->b)); break;
	case FDIV: r = Z3_mk_fpa_div(ctx, rne, zfp(e->a), zfp(e->b)); break;
	case FNEG: r = Z3_mk_fpa_neg(ctx, zfp(e->a)); break;
	case FABS: r = Z3_mk_fpa_abs(ctx, zfp(e->a)); break;
	case FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne, zfp(e->a)); break;
	case FROUND: r = Z3_mk_fpa_round_to_integral(ctx, e->k32 == 0 ? Z3_mk_fpa_rtp(ctx) : e->k32 == 1 ? Z3_mk_fpa_rtn(ctx) : Z3_mk_fpa_rtz(ctx), zfp(e->a)); break;
	case FIN: r = Z3_mk_fpa_to_fp_bv(ctx, inputs[e->k32].z, fpSort); break;
	default: fprintf(stderr, "zfp: op %d\n", e->op); _exit(78);
	}
	return e->z = r;
}

// -------------------------------------------------- path condition and solver
struct Lit { Expr* e; bool v; };
static std::vector<Lit> pc;
static size_t synced = 0;
static std::vector<Z3_ast> domain_ax; static size_t dsynced = 0;
static bool pc_fp = false;
static Z3_ast zlit(Lit l) { Z3_ast b = zbool(l.e); return l.v ? b : Z3_mk_not(ctx, b); }
static void mkSolver(bool fp) {
	if(solver) Z3_solver_dec_ref(ctx, solver);
	solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
	Z3_solver_inc_ref(ctx, solver);
	Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned) (opt_qtimeout * 1000));
	Z3_solver_set_params(ctx, solver, p);
	Z3_params_dec_ref(ctx, p);
	synced = dsynced = 0; solver_fp = fp;
}
static void syncSolver() {
	if(!solver || (pc_fp && !solver_fp)) mkSolver(pc_fp);
	for(; dsynced < domain_ax.size(); ++dsynced) Z3_solver_assert(ctx, solver, domain_ax[dsynced]);
	for(; synced < pc.size(); ++synced) Z3_solver_assert(ctx, solver, zlit(pc[synced]));
}
// Concrete evaluation of expressions under an assignment of the inputs.
static std::vector<u64> const* ev_vals; static u32 ev_epoch = 0;
static std::unordered_map<Expr*, u64> ev_memo;
static u64 binc(u8 op, int w, u64 a, u64 b);
static bool icmpc(unsigned p, int w, u64 a, u64 b);
static bool fcmpc(unsigned p, double a, double b);
static double fbinc(u8 op, double a, double b);
static i128 evPoly(Poly const& p) {
	i128 v = p.c;
	for(auto& [m, k] : p.t) { i128 x = k; for(u16 a : monos[m].a) x *= (i64) (*ev_vals)[atoms[a].input]; v += x; }
	return v;
}
static u64 ev(Expr* e) {
	if(e->op == CONST || e->op == FCONST) return e->conc;
	auto it = ev_memo.find(e);
	if(it != ev_memo.end()) return it->second;
	u64 r = 0;
	if(e->isD && e->num && e->num->exact) { i128 p = evPoly(e->num->p); double d = ldexp((double) p, e->num->e); r = asb(e->num->ab ? fabs(d) : d); }
	else if(e->ip) r = (u64) (i64) evPoly(*e->ip) & mask(e->w);
	else switch(e->op) {
	case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: case ASHR: case AND: case OR: case XOR: r = binc(e->op, e->w, ev(e->a), ev(e->b)); break;
	case ZEXT: r = ev(e->a); break;
	case SEXT: r = (u64) sx(ev(e->a), e->a->w) & mask(e->w); break;
	case TRUNC: r = ev(e->a) & mask(e->w); break;
	case EXTRACT: r = (ev(e->a) >> e->k32) & mask(e->w); break;
	case CONCAT: r = ev(e->a) << e->b->w | ev(e->b); break;
	case ITE: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
	case ICMP: r = icmpc(e->k32, e->a->w, ev(e->a), ev(e->b)); break;
	case PLE: r = evPoly(lforms[e->k32].p) <= e->k; break;
	case PEQ: r = evPoly(lforms[e->k32].p) == e->k; break;
	case FCMP: r = fcmpc(e->k32, asd(ev(e->a)), asd(ev(e->b))); break;
	case BOUNDOVF: {
		unsigned bop = e->k32 & 0xff; bool sg = e->k32 >> 8; int w = e->a->w; u64 x = ev(e->a), y = ev(e->b);
		i128 A = sg ? (i128) sx(x, w) : (i128) x, B = sg ? (i128) sx(y, w) : (i128) y, v = bop == ADD ? A + B : bop == SUB ? A - B : A * B;
		r = sg ? v < -((i128) 1 << (w - 1)) || v >= ((i128) 1 << (w - 1)) : v < 0 || v > (i128) (u128) mask(w); break; }
	case FADD: case FSUB: case FMUL: case FDIV: r = asb(fbinc(e->op, asd(ev(e->a)), asd(ev(e->b)))); break;
	case FNEG: r = asb(-asd(ev(e->a))); break;
	case FABS: r = asb(fabs(asd(ev(e->a)))); break;
	case FSQRT: r = asb(sqrt(asd(ev(e->a)))); break;
	case FROUND: { double d = asd(ev(e->a)); r = asb(e->k32 == 0 ? ceil(d) : e->k32 == 1 ? floor(d) : trunc(d)); break; }
	case FIN: r = (*ev_vals)[e->k32]; break;
	default: r = e->conc;
	}
	ev_memo[e] = r;
	return r;
}
static bool holds(std::vector<Lit> const& extra, std::vector<u64> const& vals) {
	ev_vals = &vals; ev_memo.clear();
	for(size_t i = 0; i < inputs.size(); ++i) if(inputs[i].kind == 0 && ((i64) vals[i] < inputs[i].lo || (i64) vals[i] > inputs[i].hi)) return false;
	for(auto& l : extra) if((bool) ev(l.e) != l.v) return false;
	for(auto& l : pc) if((bool) ev(l.e) != l.v) return false;
	return true;
}
// First stage: integer linear arithmetic with every non-linear monomial
// relaxed to an independent bounded variable. Its unsat is an unsat; its
// models are accepted only after evaluating the exact condition.
static Z3_solver lsolver = nullptr; static size_t lsynced = 0;
static std::unordered_map<int, Z3_ast> lmono; static std::unordered_map<Expr*, Z3_ast> lbool; static std::vector<Z3_ast> lbounds; static size_t lbsynced = 0;
static bool lrelaxed = false;
static Z3_ast lint(i128 v) { char buf[64]; int n = 63; buf[n] = 0; bool neg = v < 0; u128 u = neg ? -(u128) v : v; if(!u) buf[--n] = '0'; while(u) { buf[--n] = '0' + (int) (u % 10); u /= 10; } if(neg) buf[--n] = '-'; return Z3_mk_numeral(ctx, buf + n, Z3_mk_int_sort(ctx)); }
static Z3_ast lvar(int m) {
	auto it = lmono.find(m); if(it != lmono.end()) return it->second;
	Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("m" + std::to_string(m)).c_str()), Z3_mk_int_sort(ctx));
	Z3_inc_ref(ctx, v);
	Range r; if(mono_range(m, true, r)) { Z3_ast x = Z3_mk_le(ctx, lint(r.lo), v); Z3_inc_ref(ctx, x); lbounds.push_back(x); x = Z3_mk_le(ctx, v, lint(r.hi)); Z3_inc_ref(ctx, x); lbounds.push_back(x); }
	return lmono[m] = v;
}
static Z3_ast lz(Expr* e) {
	auto it = lbool.find(e); if(it != lbool.end()) return it->second;
	Z3_ast r = nullptr;
	switch(e->op) {
	case CONST: r = e->conc ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
	case PLE: case PEQ: {
		std::vector<Z3_ast> t;
		for(auto& [m, k] : lforms[e->k32].p.t) { Z3_ast v = lvar(m); if(k != 1) { Z3_ast x[2] = { lint(k), v }; v = Z3_mk_mul(ctx, 2, x); } t.push_back(v); }
		Z3_ast s = t.size() == 1 ? t[0] : Z3_mk_add(ctx, t.size(), t.data());
		r = e->op == PLE ? Z3_mk_le(ctx, s, lint(e->k)) : Z3_mk_eq(ctx, s, lint(e->k));
		break;
	}
	case AND: { Z3_ast x[2] = { lz(e->a), lz(e->b) }; r = Z3_mk_and(ctx, 2, x); break; }
	case OR: { Z3_ast x[2] = { lz(e->a), lz(e->b) }; r = Z3_mk_or(ctx, 2, x); break; }
	case XOR: r = isNot(e) ? Z3_mk_not(ctx, lz(e->a)) : Z3_mk_xor(ctx, lz(e->a), lz(e->b)); break;
	case ITE: r = Z3_mk_ite(ctx, lz(e->a), lz(e->b), lz(e->c)); break;
	default: r = Z3_mk_fresh_const(ctx, "b", Z3_mk_bool_sort(ctx)); break;
	}
	Z3_inc_ref(ctx, r);
	return lbool[e] = r;
}
static int lquery(std::vector<Lit> const& extra, std::vector<u64>& vals) {
	if(!lsolver) {
		lsolver = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, lsolver);
		Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
		Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 2000);
		Z3_solver_set_params(ctx, lsolver, p); Z3_params_dec_ref(ctx, p);
	}
	auto lit = [&](Lit l) { Z3_ast b = lz(l.e); return l.v ? b : Z3_mk_not(ctx, b); };
	std::vector<Z3_ast> ex;
	for(auto& l : extra) ex.push_back(lit(l));
	for(; lsynced < pc.size(); ++lsynced) Z3_solver_assert(ctx, lsolver, lit(pc[lsynced]));
	for(; lbsynced < lbounds.size(); ++lbsynced) Z3_solver_assert(ctx, lsolver, lbounds[lbsynced]);
	Z3_solver_push(ctx, lsolver);
	for(auto& x : ex) Z3_solver_assert(ctx, lsolver, x);
	Z3_lbool r = Z3_solver_check(ctx, lsolver);
	int res = -1;
	if(r == Z3_L_FALSE) res = 0;
	else if(r == Z3_L_TRUE) {
		Z3_model m = Z3_solver_get_model(ctx, lsolver); Z3_model_inc_ref(ctx, m);
		vals.clear();
		for(size_t i = 0; i < inputs.size(); ++i) {
			u64 x = inputs[i].val;
			if(inputs[i].kind == 0) {
				auto id = mono_ids.find({ (u16) inputs[i].atom });
				if(id != mono_ids.end()) { auto lv = lmono.find(id->second); Z3_ast v = nullptr; int64_t q;
					if(lv != lmono.end() && Z3_model_eval(ctx, m, lv->second, false, &v) && v && Z3_get_ast_kind(ctx, v) == Z3_NUMERAL_AST && Z3_get_numeral_int64(ctx, v, &q)) x = (u64) q; }
			}
			vals.push_back(x);
		}
		Z3_model_dec_ref(ctx, m);
		if(holds(extra, vals)) res = 1;
	}
	Z3_solver_pop(ctx, lsolver, 1);
	return res;
}
// Second stage, for non-linear conditions: fix enough inputs to make every
// monomial linear and solve the rest. Only its sat answers are used.
static u64 frng = 88172645463325252ull;
static u64 frnd() { frng ^= frng << 13; frng ^= frng >> 7; frng ^= frng << 17; return frng; }
static int fquery(std::vector<Lit> const& extra, std::vector<u64>& vals, int attempt) {
	std::vector<int> order(atoms.size()); for(size_t i = 0; i < order.size(); ++i) order[i] = i;
	for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[frnd() % i]);
	std::vector<int> rank(atoms.size()); for(size_t i = 0; i < order.size(); ++i) rank[order[i]] = i;
	std::unordered_map<int, i128> fixed;
	for(size_t m = 0; m < monos.size(); ++m) {
		auto const& a = monos[m].a; if(a.size() < 2) continue;
		// keep free only the atom of best rank, and only if it occurs once
		for(;;) {
			std::vector<int> fr; for(u16 x : a) if(!fixed.count(x)) fr.push_back(x);
			if(fr.size() <= 1) break;
			int w = *std::max_element(fr.begin(), fr.end(), [&](int x, int y) { return rank[x] < rank[y]; });
			Atom& at = atoms[w];
			i64 v = at.conc;
			if(attempt > 1 && frnd() % 2) v = at.slo + (i64) (frnd() % (u64) (at.shi - at.slo + 1));
			if(v < at.lo || v > at.hi) v = at.lo + (i64) (frnd() % (u64) std::max<i64>(1, at.hi - at.lo + 1));
			fixed[w] = v;
		}
	}
	Z3_solver s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
	Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 1000);
	Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
	std::unordered_map<int, Z3_ast> av;
	auto atomv = [&](int a) { auto it = av.find(a); if(it != av.end()) return it->second;
		Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("a" + std::to_string(a)).c_str()), Z3_mk_int_sort(ctx)); Z3_inc_ref(ctx, v);
		Z3_solver_assert(ctx, s, Z3_mk_le(ctx, lint(atoms[a].slo), v)); Z3_solver_assert(ctx, s, Z3_mk_le(ctx, v, lint(atoms[a].shi)));
		return av[a] = v; };
	std::unordered_map<Expr*, Z3_ast> memo;
	std::vector<Expr*> keep;
	auto tr = [&](auto&& self, Expr* e) -> Z3_ast {
		auto it = memo.find(e); if(it != memo.end()) return it->second;
		Z3_ast r;
		switch(e->op) {
		case CONST: r = e->conc ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
		case PLE: case PEQ: {
			std::map<int, i128> lin; i128 c = -e->k;
			for(auto& [m, k] : lforms[e->k32].p.t) { i128 co = k; int f = -1; for(u16 a : monos[m].a) { auto it = fixed.find(a); if(it != fixed.end()) co *= it->second; else f = a; } if(f >= 0) lin[f] += co; else c += co; }
			std::vector<Z3_ast> t;
			for(auto& [a, k] : lin) if(k) { Z3_ast v = atomv(a); if(k != 1) { Z3_ast x[2] = { lint(k), v }; v = Z3_mk_mul(ctx, 2, x); } t.push_back(v); }
			if(t.empty()) { r = (e->op == PLE ? c <= 0 : c == 0) ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break; }
			Z3_ast sm = t.size() == 1 ? t[0] : Z3_mk_add(ctx, t.size(), t.data());
			r = e->op == PLE ? Z3_mk_le(ctx, sm, lint(-c)) : Z3_mk_eq(ctx, sm, lint(-c));
			break;
		}
		case AND: { Z3_ast x[2] = { self(self, e->a), self(self, e->b) }; r = Z3_mk_and(ctx, 2, x); break; }
		case OR: { Z3_ast x[2] = { self(self, e->a), self(self, e->b) }; r = Z3_mk_or(ctx, 2, x); break; }
		case XOR: r = isNot(e) ? Z3_mk_not(ctx, self(self, e->a)) : Z3_mk_xor(ctx, self(self, e->a), self(self, e->b)); break;
		case ITE: r = Z3_mk_ite(ctx, self(self, e->a), self(self, e->b), self(self, e->c)); break;
		default: r = Z3_mk_fresh_const(ctx, "b", Z3_mk_bool_sort(ctx)); break;
		}
		Z3_inc_ref(ctx, r);
		return memo[e] = r;
	};
	bool dead = false;
	auto add = [&](Lit const& l) { Z3_ast b = tr(tr, l.e); if(!l.v) b = Z3_mk_not(ctx, b); Z3_solver_assert(ctx, s, b); };
	for(auto& l : extra) add(l);
	for(auto& l : pc) add(l);
	int res = -1;
	if(!dead && Z3_solver_check(ctx, s) == Z3_L_TRUE) {
		Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
		vals.clear();
		for(auto& in : inputs) {
			u64 x = in.val;
			if(in.kind == 0) {
				auto fx = fixed.find(in.atom);
				if(fx != fixed.end()) x = (u64) (i64) fx->second;
				else { auto lv = av.find(in.atom); Z3_ast v = nullptr; int64_t q; if(lv != av.end() && Z3_model_eval(ctx, m, lv->second, false, &v) && v && Z3_get_ast_kind(ctx, v) == Z3_NUMERAL_AST && Z3_get_numeral_int64(ctx, v, &q)) x = (u64) q; }
			}
			vals.push_back(x);
		}
		Z3_model_dec_ref(ctx, m);
		if(holds(extra, vals)) res = 1;
	}
	Z3_solver_dec_ref(ctx, s);
	return res;
}
// Third stage: the exact polynomial conditions over the reals (z3's nlsat). Its
// unsat is an unsat over the integers; models are accepted after evaluation.
static int nquery(std::vector<Lit> const& extra, std::vector<u64>& vals) {
	Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_NRA")); Z3_solver_inc_ref(ctx, s);
	Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned) (std::min(opt_qtimeout, 20.0) * 500));
	Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
	Z3_sort R = Z3_mk_real_sort(ctx);
	auto num = [&](i128 v) { return Z3_mk_int2real(ctx, lint(v)); };
	std::unordered_map<int, Z3_ast> av;
	auto atomv = [&](int a) { auto it = av.find(a); if(it != av.end()) return it->second;
		Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("r" + std::to_string(a)).c_str()), R); Z3_inc_ref(ctx, v);
		Z3_solver_assert(ctx, s, Z3_mk_le(ctx, num(atoms[a].slo), v)); Z3_solver_assert(ctx, s, Z3_mk_le(ctx, v, num(atoms[a].shi)));
		return av[a] = v; };
	std::unordered_map<Expr*, Z3_ast> memo;
	auto tr = [&](auto&& self, Expr* e) -> Z3_ast {
		auto it = memo.find(e); if(it != memo.end()) return it->second;
		Z3_ast r;
		switch(e->op) {
		case CONST: r = e->conc ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
		case PLE: case PEQ: {
			std::vector<Z3_ast> t;
			for(auto& [m, k] : lforms[e->k32].p.t) { std::vector<Z3_ast> f; if(k != 1) f.push_back(num(k)); for(u16 a : monos[m].a) f.push_back(atomv(a)); t.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(ctx, f.size(), f.data())); }
			Z3_ast sm = t.size() == 1 ? t[0] : Z3_mk_add(ctx, t.size(), t.data());
			r = e->op == PLE ? Z3_mk_le(ctx, sm, num(e->k)) : Z3_mk_eq(ctx, sm, num(e->k));
			break;
		}
		case AND: { Z3_ast x[2] = { self(self, e->a), self(self, e->b) }; r = Z3_mk_and(ctx, 2, x); break; }
		case OR: { Z3_ast x[2] = { self(self, e->a), self(self, e->b) }; r = Z3_mk_or(ctx, 2, x); break; }
		case XOR: r = isNot(e) ? Z3_mk_not(ctx, self(self, e->a)) : Z3_mk_xor(ctx, self(self, e->a), self(self, e->b)); break;
		case ITE: r = Z3_mk_ite(ctx, self(self, e->a), self(self, e->b), self(self, e->c)); break;
		default: r = Z3_mk_fresh_const(ctx, "b", Z3_mk_bool_sort(ctx)); break;
		}
		Z3_inc_ref(ctx, r);
		return memo[e] = r;
	};
	// a negated integer comparison p <= k is p >= k + 1
	auto lit = [&](Lit l) -> Z3_ast {
		while(isNot(l.e)) { l.e = l.e->a; l.v = !l.v; }
		if(!l.v && l.e->op == PLE) { Z3_ast b = tr(tr, pred(PLE, l.e->k32, l.e->k)); Z3_app ap = Z3_to_app(ctx, b); return Z3_mk_ge(ctx, Z3_get_app_arg(ctx, ap, 0), num(l.e->k + 1)); }
		Z3_ast b = tr(tr, l.e); return l.v ? b : Z3_mk_not(ctx, b);
	};
	for(auto& l : extra) Z3_solver_assert(ctx, s, lit(l));
	for(auto& l : pc) Z3_solver_assert(ctx, s, lit(l));
	int res = -1;
	Z3_lbool r = Z3_solver_check(ctx, s);
	if(r == Z3_L_FALSE) res = 0;
	else if(r == Z3_L_TRUE) {
		Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
		vals.clear();
		for(auto& in : inputs) {
			u64 x = in.val;
			if(in.kind == 0) { auto lv = av.find(in.atom); Z3_ast v = nullptr; int64_t a, b; if(lv != av.end() && Z3_model_eval(ctx, m, lv->second, false, &v) && v && Z3_get_ast_kind(ctx, v) == Z3_NUMERAL_AST && Z3_get_numeral_rational_int64(ctx, v, &a, &b)) x = (u64) (a / b); }
			vals.push_back(x);
		}
		Z3_model_dec_ref(ctx, m);
		if(holds(extra, vals)) res = 1;
	}
	Z3_solver_dec_ref(ctx, s);
	return res;
}
static bool nonlinear(std::vector<Lit> const& extra) { (void) extra; for(auto& m : monos) if(m.a.size() > 1) return true; return false; }
static FILE* smt_dump = nullptr; static int smt_dumped = 0;
// 1 sat, 0 unsat, -1 unknown. With sat, vals receives a model of the inputs.
static int query(std::vector<Lit> const& extra, std::vector<u64>& vals) {
	z3init();
	{
		double t0 = now();
		int r = lquery(extra, vals);
		if(r < 0 && !pc_fp && nonlinear(extra)) {
			for(int k = 0; k < 4 && r < 0; ++k) r = fquery(extra, vals, k);
			if(r < 0) r = nquery(extra, vals);
			for(int k = 4; k < 12 && r < 0; ++k) r = fquery(extra, vals, k);
		}
		st.stime += now() - t0;
		if(r >= 0) { ++st.queries; ++st.lin; if(r) ++st.sat; else ++st.unsat; return r; }
	}
	bool xfp = false; for(auto& l : extra) if(hasFP(l.e)) xfp = true;
	if(xfp && !solver_fp) { bool o = pc_fp; pc_fp = true; syncSolver(); pc_fp = o; } else syncSolver();
	if(solver_fp) ++st.fpq;
	Z3_solver_push(ctx, solver);
	for(auto& l : extra) Z3_solver_assert(ctx, solver, zlit(l));
	double t0 = now();
	Z3_lbool r = Z3_solver_check(ctx, solver);
	st.stime += now() - t0;
	++st.queries;
	if(smt_dump && smt_dumped < 40) {
		++smt_dumped;
		fprintf(smt_dump, ";;QUERY expect=%s\n(set-logic ALL)\n%s(check-sat)\n", r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown", Z3_solver_to_string(ctx, solver));
		fflush(smt_dump);
	}
	int res;
	if(r == Z3_L_TRUE) {
		++st.sat; res = 1;
		Z3_model m = Z3_solver_get_model(ctx, solver);
		Z3_model_inc_ref(ctx, m);
		vals.clear();
		for(auto& in : inputs) {
			if(in.kind == 0 && !in.z) { vals.push_back(in.val); continue; }
			Z3_ast v = nullptr;
			u64 x = in.val;
			// leave inputs the model does not constrain as they are
			if(Z3_model_eval(ctx, m, in.z, false, &v) && v && Z3_get_ast_kind(ctx, v) == Z3_NUMERAL_AST) {
				Z3_string s = Z3_get_numeral_string(ctx, v);
				u64 u = strtoull(s, nullptr, 10);
				if(in.kind == 0) { int w = Z3_get_bv_sort_size(ctx, Z3_get_sort(ctx, in.z)); x = (u64) sx(u, w); } else x = u;
			}
			vals.push_back(x);
		}
		Z3_model_dec_ref(ctx, m);
	} else if(r == Z3_L_FALSE) { ++st.unsat; res = 0; }
	else { ++st.unknown; res = -1; }
	Z3_solver_pop(ctx, solver, 1);
	return res;
}

// Truth of a boolean expression from cached facts: 1, 0 or -1.
static int eval3(Expr* e) {
	if(e->truth) return e->truth - 1;
	switch(e->op) {
	case CONST: return e->conc & 1;
	case PLE: { auto r = lrange(e->k32); return r.hi <= e->k ? 1 : r.lo > e->k ? 0 : -1; }
	case PEQ: { auto r = lrange(e->k32); if(e->k < r.lo || e->k > r.hi || lforms[e->k32].ne.count(e->k)) return 0; return r.lo == r.hi ? 1 : -1; }
	case AND: { if(e->w != 1) return -1; int a = eval3(e->a); if(a == 0) return 0; int b = eval3(e->b); if(b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
	case OR: { if(e->w != 1) return -1; int a = eval3(e->a); if(a == 1) return 1; int b = eval3(e->b); if(b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
	case XOR: { if(e->w != 1) return -1; int a = eval3(e->a); if(a < 0) return -1; int b = eval3(e->b); return b < 0 ? -1 : a ^ b; }
	case ITE: { if(e->w != 1) return -1; int c = eval3(e->a); if(c == 1) return eval3(e->b); if(c == 0) return eval3(e->c); int a = eval3(e->b), b = eval3(e->c); return a == b ? a : -1; }
	default: return -1;
	}
}
static void learn(Expr* e, bool v) {
	if(e->op == CONST) return;
	e->truth = v ? 2 : 1;
	switch(e->op) {
	case PLE: { auto& l = lforms[e->k32]; if(v) l.hi = std::min(l.hi, e->k); else l.lo = std::max(l.lo, e->k + 1); lrange(e->k32); break; }
	case PEQ: { auto& l = lforms[e->k32]; if(v) l.lo = l.hi = e->k; else l.ne.insert(e->k); lrange(e->k32); break; }
	case AND: if(e->w == 1) { if(v) { learn(e->a, true); learn(e->b, true); } else { if(eval3(e->a) == 1) learn(e->b, false); else if(eval3(e->b) == 1) learn(e->a, false); } } break;
	case OR: if(e->w == 1) { if(!v) { learn(e->a, false); learn(e->b, false); } else { if(eval3(e->a) == 0) learn(e->b, true); else if(eval3(e->b) == 0) learn(e->a, true); } } break;
	case XOR: if(isNot(e)) learn(e->a, !v); break;
	case ITE: if(e->w == 1) { int c = eval3(e->a); if(c == 1) learn(e->b, v); else if(c == 0) learn(e->c, v); } break;
	default: break;
	}
}

// ------------------------------------------------------------ exploration
struct Dec { u8 pin; u64 v; };
struct Item { std::vector<u64> vals; std::vector<Dec> prefix; std::vector<u64> excl; u64 id = 0; };
static Item cur;
static size_t ndec = 0;
static std::vector<Dec> trace;
static std::vector<Item> newItems;
struct Viol { std::string msg, tag; std::vector<u64> vals; };
static std::vector<Viol> viols;
static std::set<std::string> covers, pinnedExt, unsups;
static std::vector<u64> observed;
static std::string curTag;
static std::string bad; // divergence etc.
static int result_fd = -1;
static i64* shared_vals = nullptr; // [0] count, then the inputs of the running path
[[noreturn]] static void finish(int status);
static std::vector<u64> curVals() { std::vector<u64> v; for(auto& i : inputs) v.push_back(i.val); return v; }

static void flip(std::vector<Lit> const& lits, Dec d, bool isPin, std::vector<u64> const& excl) {
	std::vector<u64> m;
	int r = query(lits, m);
	if(r == 1) {
		Item it; it.vals = m; it.prefix = trace;
		if(isPin) it.excl = excl; else it.prefix.push_back(d);
		newItems.push_back(std::move(it));
	}
}
static void addpc(Expr* e, bool v) {
	if(hasFP(e)) pc_fp = true;
	pc.push_back({ e, v }); learn(e, v);
}
// Take the concrete direction c of condition e.
static void branch(Expr* e, bool c) {
	while(isNot(e)) { e = e->a; c = !c; }
	int k = eval3(e);
	if(k >= 0) {
		++st.implied;
		if(k != (int) c) { bad = "internal: known truth contradicts execution"; finish(3); }
		return;
	}
	++st.branches;
	size_t n = ndec++;
	if(n < cur.prefix.size()) {
		if(cur.prefix[n].pin || cur.prefix[n].v != (u64) c) { bad = "divergence at a branch"; finish(3); }
	} else {
		// excluded pins do not apply to branches
		flip({ { e, !c } }, { 0, (u64) !c }, false, {});
	}
	trace.push_back({ 0, (u64) c });
	addpc(e, c);
}
static Expr* mkICmp(unsigned pred, int w, Expr* a, Expr* b);
static void pinAtom(int a);
static void pinExpr(Expr* e);
// Pin an integer expression to its concrete value; other values are explored by other paths.
static void pinInt(Expr* e) {
	if(e->op == CONST) return;
	if(e->w == 1) { branch(e, e->conc); return; }
	auto eqTo = [&](u64 v) { return mkICmp(P_EQ, e->w, e, cbv(v, e->w)); };
	Expr* q = eqTo(e->conc);
	int k = eval3(q);
	if(k == 1) return;
	if(k == 0) { bad = "internal: pin contradicts execution"; finish(3); }
	++st.pins;
	size_t n = ndec++;
	if(n < cur.prefix.size()) {
		if(!cur.prefix[n].pin || cur.prefix[n].v != e->conc) { bad = "divergence at a pin"; finish(3); }
	} else {
		std::vector<u64> ex;
		if(n == cur.prefix.size()) ex = cur.excl;
		for(u64 x : ex) if(x == e->conc) { bad = "divergence at an excluded pin"; finish(3); }
		ex.push_back(e->conc);
		std::vector<Lit> l; for(u64 x : ex) l.push_back({ eqTo(x), false });
		flip(l, {}, true, ex);
	}
	trace.push_back({ 1, e->conc });
	addpc(q, true);
}
static void pinAtom(int i) {
	Expr* e = mk(POLYI, 0, 64, (u64) atoms[i].conc);
	Poly* p = new Poly; p->t.push_back({ mono_id({ (u16) i }), 1 }); e->ip = p;
	pinInt(e);
}
static void leafAtoms(Poly const& p, std::set<int>& s) { for(auto& t : p.t) for(u16 a : monos[t.first].a) s.insert(a); }
static void leaves(Expr* e, std::set<int>& at, std::set<int>& fin) {
	if(!e) return;
	if(e->num) { leafAtoms(e->num->p, at); leafAtoms(e->num->q, at); if(e->num->exact) return; }
	if(e->op == FIN) fin.insert(e->k32);
	leaves(e->a, at, fin); leaves(e->b, at, fin);
}
static void pinDouble(Expr* e) {
	if(e->op == FCONST) return;
	std::set<int> at, fin; leaves(e, at, fin);
	for(int a : at) pinAtom(a);
	for(int f : fin) {
		// any double: pin by bit pattern, other patterns are not enumerated
		++st.approx; (void) f;
		Expr* c = mk(FCONST, 1, 64, inputs[f].val);
		Expr* x = mk(FIN, 1, 64, inputs[f].val); x->k32 = f;
		Expr* q = mk(FCMP, 0, 1, 1, x, c); q->k32 = 1;
		if(asd(inputs[f].val) == asd(inputs[f].val)) addpc(q, true);
	}
}
static void pinExpr(Expr* e) { if(e->isD) pinDouble(e); else pinInt(e); }

// ------------------------------------------------------------ BV construction
static Expr* withPoly(int w, Poly const& p, bool* ok) {
	Range r; *ok = false;
	if(!prange(p, true, r)) return nullptr;
	if(r.lo < -((i128) 1 << (w - 1)) || r.hi > ((i128) 1 << (w - 1)) - 1) return nullptr;
	*ok = true;
	if(p.isConst()) return cbv((u64) (i64) p.c, w);
	Expr* e = mk(POLYI, 0, w, (u64) (i64) pconc(p) & mask(w)); e->ip = new Poly(p);
	return e;
}
static Poly constPoly(i128 c) { Poly p; p.c = c; return p; }
static bool getPoly(Expr* e, Poly& p) { // as a signed integer
	if(e->op == CONST) { p = constPoly(sx(e->conc, e->w)); return true; }
	if(e->ip) { p = *e->ip; return true; }
	return false;
}
static Expr* mapITE(Expr* e, int depth, Expr* (*f)(Expr*, void*), void* u) { // push through ITE with constant leaves
	if(e->op == CONST) return f(e, u);
	if((e->op == ZEXT || e->op == SEXT) && e->a->w == 1) return mapITE(mk(ITE, 0, e->w, e->conc, e->a, cbv(e->op == ZEXT ? 1 : mask(e->w), e->w), cbv(0, e->w)), depth, f, u);
	if(e->op == ITE && depth < 6) {
		Expr* x = mapITE(e->b, depth + 1, f, u); if(!x) return nullptr;
		Expr* y = mapITE(e->c, depth + 1, f, u); if(!y) return nullptr;
		if(x->op == CONST && y->op == CONST) {
			if(x->conc == y->conc) return x;
			if(x->w == 1) return x->conc ? e->a : mkNot(e->a);
		}
		if(x->w == 1) return mkOr(mkAnd(e->a, x), mkAnd(mkNot(e->a), y));
		return mk(ITE, 0, x->w, e->a->conc ? x->conc : y->conc, e->a, x, y);
	}
	return nullptr;
}
static Expr* mkCastI(int kind, int w, Expr* a) { // kind ZEXT/SEXT/TRUNC
	if(a->w == w) return a;
	auto cv = [&](u64 v) { return kind == SEXT ? (u64) sx(v, a->w) & mask(w) : v & mask(w); };
	if(a->op == CONST) return cbv(cv(a->conc), w);
	if(kind == TRUNC && (a->op == ZEXT || a->op == SEXT)) {
		if(a->a->w == w) return a->a;
		if(a->a->w < w) return mkCastI(a->op, w, a->a);
		return mkCastI(TRUNC, w, a->a);
	}
	if(kind == ZEXT && a->op == ZEXT) return mkCastI(ZEXT, w, a->a);
	if(a->ip) {
		Range r; bool ok;
		if(prange(*a->ip, true, r) && (kind != ZEXT || r.lo >= 0)) { Expr* e = withPoly(w, *a->ip, &ok); if(ok) return e; }
	}
	if(a->op == ITE && a->w > 1) {
		struct U { int k, w; } u{ kind, w };
		if(Expr* r = mapITE(a, 0, [](Expr* x, void* p) { auto* u = (U*) p; return mkCastI(u->k, u->w, x); }, &u)) return r;
	}
	return mk(kind, 0, w, cv(a->conc), a);
}
static bool icmpc(unsigned p, int w, u64 a, u64 b) {
	i64 x = sx(a, w), y = sx(b, w);
	switch(p) {
	case P_EQ: return a == b; case P_NE: return a != b;
	case P_UGT: return a > b; case P_UGE: return a >= b; case P_ULT: return a < b; case P_ULE: return a <= b;
	case P_SGT: return x > y; case P_SGE: return x >= y; case P_SLT: return x < y; default: return x <= y;
	}
}
static Expr* mkICmp(unsigned p, int w, Expr* a, Expr* b) {
	switch(p) { // normalize
	case P_NE: return mkNot(mkICmp(P_EQ, w, a, b));
	case P_UGT: return mkICmp(P_ULT, w, b, a);
	case P_UGE: return mkICmp(P_ULE, w, b, a);
	case P_SGT: return mkICmp(P_SLT, w, b, a);
	case P_SGE: return mkICmp(P_SLE, w, b, a);
	default: break;
	}
	if(a->op == CONST && b->op == CONST) return mkbool_const(icmpc(p, w, a->conc, b->conc));
	if(a == b) return mkbool_const(p == P_EQ || p == P_ULE || p == P_SLE);
	if(w == 1 && p == P_EQ) {
		if(b->op == CONST) return b->conc ? a : mkNot(a);
		if(a->op == CONST) return a->conc ? b : mkNot(b);
		return mkNot(mk(XOR, 0, 1, a->conc ^ b->conc, a, b));
	}
	if(p == P_EQ && a->op == CONST) std::swap(a, b);
	// (zext x) cmp const
	if(b->op == CONST && a->op == ZEXT && p != P_SLT && p != P_SLE) {
		int sw = a->a->w;
		if(b->conc > mask(sw)) return mkbool_const(p != P_EQ);
		return mkICmp(p, sw, a->a, cbv(b->conc, sw));
	}
	if(w == 1) { // unsigned order of booleans
		if(p == P_ULT) return mkAnd(mkNot(a), b);
		if(p == P_ULE) return mkOr(mkNot(a), b);
		if(p == P_SLT) return mkAnd(a, mkNot(b));
		return mkOr(a, mkNot(b));
	}
	Poly x, y;
	if(getPoly(a, x) && getPoly(b, y)) {
		Range rx, ry;
		bool sg = p == P_EQ || p == P_SLT || p == P_SLE;
		if(sg || (prange(x, true, rx) && prange(y, true, ry) && rx.lo >= 0 && ry.lo >= 0)) {
			Poly d;
			if(padd(x, y, -1, d)) {
				if(p == P_EQ) return mkEQ0(d);
				if(p == P_SLT || p == P_ULT) d.c += 1;
				return mkLE0(d);
			}
		}
		// unsigned compare with a negative constant (all ones): e.g. x < 0xffff....
		if(!sg && a->ip && b->op == CONST && sx(b->conc, w) < 0 && prange(x, true, rx) && rx.lo >= 0) return mkbool_const(true);
		if(!sg && b->ip && a->op == CONST && sx(a->conc, w) < 0 && prange(y, true, ry) && ry.lo >= 0) return mkbool_const(false);
	}
	{
		struct U { unsigned p; int w; Expr* o; bool left; };
		if(a->op == ITE && b->op == CONST) { U u{ p, w, b, true }; if(Expr* r = mapITE(a, 0, [](Expr* x, void* q) { auto* u = (U*) q; return mkICmp(u->p, u->w, x, u->o); }, &u)) return r; }
		if(b->op == ITE && a->op == CONST) { U u{ p, w, a, false }; if(Expr* r = mapITE(b, 0, [](Expr* x, void* q) { auto* u = (U*) q; return mkICmp(u->p, u->w, u->o, x); }, &u)) return r; }
	}
	if(a->op != CONST && b->op != CONST) { // both choose among constants
		struct U { unsigned p; int w; Expr *o, *x; } u{ p, w, b, nullptr };
		if(Expr* r = mapITE(a, 2, [](Expr* x, void* q) -> Expr* {
			auto* u = (U*) q; u->x = x;
			return mapITE(u->o, 2, [](Expr* y, void* q) { auto* u = (U*) q; return mkICmp(u->p, u->w, u->x, y); }, u);
		}, &u)) return r;
	}
	Expr* e = mk(ICMP, 0, 1, icmpc(p, w, a->conc, b->conc), a, b);
	e->k32 = p;
	return e;
}
static u64 binc(u8 op, int w, u64 a, u64 b) {
	u64 r = 0;
	switch(op) {
	case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break;
	case UDIV: r = b ? a / b : 0; break; case UREM: r = b ? a % b : 0; break;
	case SDIV: r = b && !(sx(a, w) == INT64_MIN && sx(b, w) == -1) ? (u64) (sx(a, w) / sx(b, w)) : 0; break;
	case SREM: r = b && sx(b, w) != -1 ? (u64) (sx(a, w) % sx(b, w)) : 0; break;
	case SHL: r = b < 64 ? a << b : 0; break; case LSHR: r = b < 64 ? a >> b : 0; break;
	case ASHR: r = (u64) (sx(a, w) >> std::min<u64>(b, 63)); break;
	case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break;
	}
	return r & mask(w);
}
static Expr* mkBin(u8 op, int w, Expr* a, Expr* b) {
	if(a->op == CONST && b->op == CONST) return cbv(binc(op, w, a->conc, b->conc), w);
	if(w == 1) {
		if(op == AND || op == MUL) return mkAnd(a, b);
		if(op == OR) return mkOr(a, b);
		if(op == XOR || op == ADD || op == SUB) {
			if(b->op == CONST) return b->conc ? mkNot(a) : a;
			if(a->op == CONST) return a->conc ? mkNot(b) : b;
			return mk(XOR, 0, 1, a->conc ^ b->conc, a, b);
		}
	}
	if(a->op == CONST && (op == ADD || op == MUL || op == AND || op == OR || op == XOR)) std::swap(a, b);
	if(b->op == CONST) {
		if(b->conc == 0 && (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR)) return a;
		if(b->conc == 0 && (op == AND || op == MUL)) return b;
		if(b->conc == mask(w) && op == AND) return a;
		if(b->conc == 1 && (op == MUL || op == UDIV || op == SDIV)) return a;
		if(op == AND && a->op == ZEXT) { // and (zext x), c
			int sw = a->a->w;
			return mkCastI(ZEXT, w, mkBin(AND, sw, a->a, cbv(b->conc, sw)));
		}
		if(op == XOR && a->op == ZEXT && b->conc <= mask(a->a->w)) return mkCastI(ZEXT, w, mkBin(XOR, a->a->w, a->a, cbv(b->conc, a->a->w)));
	}
	if((op == AND || op == OR || op == XOR) && a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w)
		return mkCastI(ZEXT, w, mkBin(op, a->a->w, a->a, b->a));
	Poly x, y; bool ok;
	if((op == ADD || op == SUB || op == MUL || (op == SHL && b->op == CONST && b->conc < 60)) && getPoly(a, x) && getPoly(b, y)) {
		Poly r; bool good;
		if(op == SHL) { y = constPoly((i128) 1 << b->conc); good = pmul(x, y, r); }
		else good = op == MUL ? pmul(x, y, r) : padd(x, y, op == SUB ? -1 : 1, r);
		if(good) { Expr* e = withPoly(w, r, &ok); if(ok) return e; }
	}
	if(w > 1 && (b->op == CONST && a->op == ITE)) {
		struct U { u8 op; int w; Expr* o; } u{ op, w, b };
		if(Expr* r = mapITE(a, 0, [](Expr* x, void* q) { auto* u = (U*) q; return mkBin(u->op, u->w, x, u->o); }, &u)) return r;
	}
	return mk(op, 0, w, binc(op, w, a->conc, b->conc), a, b);
}

// -------------------------------------------------------- double construction
static Poly one() { return constPoly(1); }
static Expr* fconst(u64 b) {
	Expr* e = mk(FCONST, 1, 64, b);
	double d = asd(b);
	if(std::isfinite(d)) {
		int ex; double m = frexp(d, &ex); // d = m * 2^ex
		i64 mi = (i64) ldexp(m, 53); int x = ex - 53;
		while(mi && !(mi & 1)) { mi >>= 1; ++x; }
		if(!mi) x = 0;
		Num* n = new Num; n->p = constPoly(mi); n->q = one(); n->e = x; n->exact = true; n->rn = true;
		e->num = n;
	}
	return e;
}
static double toD(i128 v) { return (double) v; }
// Magnitude bound of a Num (without err).
static double magn(Num const& n) {
	Range r; if(!prange(n.p, true, r)) return INFINITY;
	return ldexp(toD(maxabs(r)), n.e) * (1 + 1e-9);
}
// Give exactness / rounding error to a freshly computed real value p/q*2^e (+ err so far).
static bool isSmall(Poly const& p) { Range r; return prange(p, true, r) && maxabs(r) <= ((i128) 1 << 25); }
static int trailing(Poly const& p) {
	i128 g = p.c; for(auto& t : p.t) g = gcd_(g, t.second);
	if(!g) return 0;
	int n = 0; while(!(g & 1)) { g >>= 1; ++n; } return n;
}
static void pshift(Poly& p, int n) { p.c >>= n; for(auto& t : p.t) t.second >>= n; }
static bool constIs1(Poly const& q) { return q.isConst() && q.c == 1; }
static bool shiftUp(Poly& p, int n) { if(n == 0) return true; if(n > 110) return false; return padd(constPoly(0), p, (i128) 1 << n, p); }
static Num* finishNum(Num n, bool inexactIn) {
	int tz = trailing(n.p);
	if(tz) { pshift(n.p, tz); n.e += tz; }
	if(n.p.isConst() && n.p.c == 0) n.e = 0;
	int tq = trailing(n.q); if(tq) { pshift(n.q, tq); n.e -= tq; }
	if(n.q.isConst() && n.q.c != 1) { // divide out a constant denominator when it divides everything
		i128 g = n.p.c; for(auto& t : n.p.t) g = gcd_(g, t.second);
		g = gcd_(g, n.q.c);
		if(g > 1) { n.p.c /= g; for(auto& t : n.p.t) t.second /= g; n.q.c /= g; }
	}
	Range r; if(!prange(n.p, true, r)) return nullptr;
	double mag = ldexp(toD(maxabs(r)), n.e) * (1 + 1e-9);
	if(!(mag < 1e290)) return nullptr;
	if(mag != 0 && n.e < -900) return nullptr;
	n.exact = n.rn = false;
	if(!inexactIn) {
		if(constIs1(n.q) && maxabs(r) <= ((i128) 1 << 53)) { n.exact = true; n.err = 0; n.rn = isSmall(n.p); return new Num(n); }
		if(isSmall(n.p) && isSmall(n.q)) n.rn = true;
		n.err = 0;
	}
	n.err = (n.err + (mag + n.err) * 0x1p-53) * (1 + 1e-12) + 1e-300;
	// keep coefficients short
	i128 mc = iabs(n.p.c); for(auto& t : n.p.t) mc = std::max(mc, iabs(t.second));
	int bl = bitlen(mc);
	if(bl > 90 && constIs1(n.q)) {
		int s = bl - 80; double add = 1;
		for(auto& t : n.p.t) { Range m; if(!mono_range(t.first, true, m)) return nullptr; add += toD(maxabs(m)); }
		pshift(n.p, s); n.e += s; n.err = (n.err + ldexp(add, n.e)) * (1 + 1e-12);
		std::vector<std::pair<int, i128>> tt; for(auto& t : n.p.t) if(t.second) tt.push_back(t); n.p.t = tt;
	}
	return new Num(n);
}
static bool align(Num const& a, Num const& b, Poly& pa, Poly& pb, int& e) { // cross-multiplied numerators over a.q*b.q, common exponent
	if(!pmul(a.p, b.q, pa) || !pmul(b.p, a.q, pb)) return false;
	if(pa.isConst() && !pa.c) { e = b.e; return true; }
	if(pb.isConst() && !pb.c) { e = a.e; return true; }
	e = std::min(a.e, b.e);
	return shiftUp(pa, a.e - e) && shiftUp(pb, b.e - e);
}
// Round the coefficients down so that the exponent becomes e; what is lost goes to err.
static bool coarsen(Num& n, int e) {
	if(n.e >= e) return true;
	if(!constIs1(n.q) || n.ab) return false;
	int s = e - n.e; double add = 1;
	for(auto& t : n.p.t) { Range m; if(!mono_range(t.first, true, m)) return false; add += toD(maxabs(m)); }
	if(s > 126) { n.p.c = n.p.c < 0 ? -1 : 0; for(auto& t : n.p.t) t.second = t.second < 0 ? -1 : 0; } else pshift(n.p, s);
	n.e = e; n.err = (n.err + ldexp(add, e)) * (1 + 1e-12); n.exact = n.rn = false;
	std::vector<std::pair<int, i128>> tt; for(auto& t : n.p.t) if(t.second) tt.push_back(t); n.p.t = tt;
	return true;
}
static bool coarsenTo(Num& n, int bits) { // values of at most that many bits
	Range r; return prange(n.p, true, r) && coarsen(n, n.e + std::max(0, bitlen(maxabs(r)) - bits));
}
static bool coarsenPair(Num& a, Num& b, int bits) { // common exponent, that many bits below the larger magnitude
	double m = std::max(magn(a), magn(b)); if(!(m < 1e290) || m == 0) return false;
	int e = ilogb(m) + 1 - bits; return coarsen(a, e) && coarsen(b, e);
}
static bool samePoly(Poly const& a, Poly const& b) { return a.c == b.c && a.t == b.t; }
static Num* addNum(Num const& a, Num const& b, int sgn, bool retry = true) {
	if(a.ab || b.ab) return nullptr;
	auto again = [&]() -> Num* { Num x = a, y = b; return retry && constIs1(a.q) && constIs1(b.q) && coarsenPair(x, y, 90) ? addNum(x, y, sgn, false) : nullptr; };
	Num n; Poly pa, pb;
	if(samePoly(a.q, b.q)) {
		pa = a.p; pb = b.p; n.q = a.q;
		if(pa.isConst() && !pa.c) n.e = b.e;
		else if(pb.isConst() && !pb.c) n.e = a.e;
		else { n.e = std::min(a.e, b.e); if(!shiftUp(pa, a.e - n.e) || !shiftUp(pb, b.e - n.e)) return again(); }
	} else {
		if(!align(a, b, pa, pb, n.e) || !pmul(a.q, b.q, n.q)) return nullptr;
	}
	if(!padd(pa, pb, sgn, n.p)) return again();
	n.err = a.err + b.err;
	return finishNum(n, !(a.exact && b.exact));
}
static Num* mulNum(Num const& a, Num const& b, bool retry = true) {
	if(a.ab || b.ab) return nullptr;
	Num n;
	Range r; if(!pmul(a.p, b.p, n.p) || !pmul(a.q, b.q, n.q) || !prange(n.p, true, r)) {
		Num x = a, y = b; if(!retry || !constIs1(a.q) || !constIs1(b.q) || !coarsenTo(x, 56) || !coarsenTo(y, 56)) return nullptr;
		return mulNum(x, y, false);
	}
	n.e = a.e + b.e;
	n.err = magn(a) * b.err + magn(b) * a.err + a.err * b.err;
	return finishNum(n, !(a.exact && b.exact));
}
static double fbinc(u8 op, double a, double b) { switch(op) { case FADD: return a + b; case FSUB: return a - b; case FMUL: return a * b; default: return a / b; } }
// Sign of an exact value, decided by branching: -1, 0, 1.
static int signOf(Num const& n) { return signPoly(n.p); }
static Expr* unAb(Expr* e) { // resolve a lazy absolute value by its sign
	if(e->num && e->num->ab) {
		Num n = *e->num; n.ab = false;
		i128 v = pconc(n.p);
		branch(mkLE0(n.p), v <= 0);
		if(v <= 0) padd(constPoly(0), n.p, -1, n.p);
		e->num = new Num(n); e->op = FPOLY; e->a = nullptr; e->z = nullptr;
		// exact sign-flip: the value itself
	}
	return e;
}
// Hash-consing of plain floating-point terms, in a canonical operand order.
static std::map<std::tuple<u8, u32, Expr*, Expr*>, Expr*> fcons;
static std::map<u64, Expr*> fconst_cons;
static Expr* canonC(Expr* e) { if(e->op != FCONST) return e; auto& r = fconst_cons[e->conc]; if(!r) r = e; return r; }
static Expr* mkFp(u8 op, u32 k, u64 conc, Expr* a, Expr* b) {
	a = canonC(a); if(b) b = canonC(b);
	if((op == FADD || op == FMUL) && b < a) std::swap(a, b);
	if(op == FABS) {
		if(a->op == FSUB && !a->num && a->b < a->a) a = mkFp(FSUB, 0, asb(asd(a->b->conc) - asd(a->a->conc)), a->b, a->a);
		else if(a->op == FNEG || a->op == FABS) return mkFp(FABS, 0, conc, a->a, nullptr);
	}
	auto& r = fcons[{ op, k, a, b }];
	if(!r) { r = mk(op, op == FCMP ? 0 : 1, op == FCMP ? 1 : 64, conc, a, b); r->k32 = k; }
	return r;
}
static Expr* mkFBin(u8 op, Expr* a, Expr* b) {
	double c = fbinc(op, asd(a->conc), asd(b->conc));
	if(a->op == FCONST && b->op == FCONST) return fconst(asb(c));
	if((op == FMUL || op == FDIV) && b->op == FCONST && asd(b->conc) == 1) return a;
	if(op == FMUL && a->op == FCONST && asd(a->conc) == 1) return b;
	if(op == FSUB && b->op == FCONST && b->conc == 0) return a;
	a = unAb(a); b = unAb(b);
	// an infinite or NaN constant operand
	for(int k = 0; k < 2; ++k) {
		Expr *x = k ? b : a, *y = k ? a : b;
		if(x->op == FCONST && !x->num && y->num && y->num->exact) {
			if(asd(x->conc) != asd(x->conc)) return fconst(asb(c));
			if(op == FMUL || op == FDIV) signOf(*y->num);
			return fconst(asb(c));
		}
	}
	Num* n = nullptr;
	if(a->num && b->num) switch(op) {
	case FADD: n = addNum(*a->num, *b->num, 1); break;
	case FSUB: n = addNum(*a->num, *b->num, -1); break;
	case FMUL: n = mulNum(*a->num, *b->num); break;
	case FDIV: {
		Num const &x = *a->num, &y = *b->num;
		if(y.p.isConst() && y.p.c == 0) { if(x.exact) { signOf(x); return fconst(asb(c)); } break; }
		if(!y.exact) {
			// a divisor whose enclosure is away from zero
			break;
		}
		int s = signOf(y);
		if(s == 0) { // x / 0: sign of x and of the zero decide
			if(x.exact) { signOf(x); if(a->op != FCONST || true) { std::set<int> at, fi; leaves(b, at, fi); if(b->op == FMUL || b->op == FNEG) for(int i : at) pinAtom(i); } return fconst(asb(c)); }
			break;
		}
		Num r; Poly yp = y.p; if(s < 0) padd(constPoly(0), yp, -1, yp);
		Poly xp = x.p; if(s < 0) padd(constPoly(0), xp, -1, xp);
		r.p = xp; if(!pmul(x.q, yp, r.q)) break;
		r.e = x.e - y.e;
		// x.err / |y|, |y| >= 2^y.e since the polynomial is a non-zero integer
		r.err = x.err * ldexp(1.0, -y.e);
		n = finishNum(r, !x.exact);
		break;
	}
	}
	if(n && n->exact && n->p.isConst()) { Expr* e = fconst(asb(ldexp((double) (i64) n->p.c, n->e))); e->conc = asb(c); return e; }
	if(!n) return mkFp(op, 0, asb(c), a, b);
	Expr* e = mk(op, 1, 64, asb(c), a, b);
	e->num = n;
	return e;
}
static bool fcmpc(unsigned p, double a, double b) {
	bool un = a != a || b != b;
	return ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b) || ((p & 8) && un);
}
// Compare exact p*2^e (or |p|*2^e) with a constant: predicate on integer p.
static Expr* cmpConst(unsigned p, Num const& n, double c) {
	double s = ldexp(c, -n.e); // exact unless it over/underflows
	if(c != 0 && (s == 0 || fabs(s) < 1e-300)) s = c > 0 ? 1e-300 : -1e-300;
	if(fabs(s) > 1e30) s = s > 0 ? 1e30 : -1e30; // beyond any p
	auto le = [&](double t, bool strict) -> Expr* { // p <= t or p < t
		i128 k = (i128) floor(t); if(strict && (double) k == t) k -= 1;
		Poly q = n.p; q.c -= k; return mkLE0(q);
	};
	auto ge = [&](double t, bool strict) -> Expr* { // p >= t or p > t
		i128 k = (i128) ceil(t); if(strict && (double) k == t) k += 1;
		Poly q; padd(constPoly(k), n.p, -1, q); return mkLE0(q);
	};
	auto eq = [&](double t) -> Expr* {
		if(t != floor(t)) return mkbool_const(false);
		Poly q = n.p; q.c -= (i128) t; return mkEQ0(q);
	};
	unsigned o = p & 7;
	if(!n.ab) switch(o) {
		case 0: return mkbool_const(false);
		case 1: return eq(s); case 2: return ge(s, true); case 3: return ge(s, false); case 4: return le(s, true); case 5: return le(s, false);
		case 6: return mkNot(eq(s)); default: return mkbool_const(true);
	}
	// |p| against s
	auto lt = [&](bool strict) -> Expr* { // |p| < s or <= s
		if(s < 0 || (s == 0 && strict)) return mkbool_const(false);
		i128 k = (i128) floor(s); if(strict && (double) k == s) k -= 1;
		if(k == 0) return mkEQ0(n.p);
		return mkAnd(le((double) k, false), ge(-(double) k, false));
	};
	auto aeq = [&]() -> Expr* { if(s < 0) return mkbool_const(false); if(s == 0) return mkEQ0(n.p); return mkOr(eq(s), eq(-s)); };
	switch(o) {
	case 0: return mkbool_const(false);
	case 1: return aeq(); case 2: return mkNot(lt(false)); case 3: return mkNot(lt(true)); case 4: return lt(true); case 5: return lt(false);
	case 6: return mkNot(aeq()); default: return mkbool_const(true);
	}
}
static unsigned swapF(unsigned p) { return (p & 9) | ((p & 2) << 1) | ((p & 4) >> 1); }
static Expr* mkFCmp(unsigned p, Expr* a, Expr* b) {
	bool c = fcmpc(p, asd(a->conc), asd(b->conc));
	if(p == 0 || p == 15) return mkbool_const(p == 15);
	if(a->op == FCONST && b->op == FCONST) return mkbool_const(c);
	// infinities and NaN against something finite
	if(a->op == FCONST && !a->num && b->num) return mkbool_const(c);
	if(b->op == FCONST && !b->num && a->num) return mkbool_const(c);
	if(a == b && a->num) return mkbool_const(p & 1); // finite
	if(a->num && b->num) {
		if(a->num->exact && b->op == FCONST) return cmpConst(p, *a->num, asd(b->conc));
		if(b->num->exact && a->op == FCONST) return cmpConst(swapF(p), *b->num, asd(a->conc));
		a = unAb(a); b = unAb(b);
		Num x = *a->num, y = *b->num;
		Poly pa, pb, d; int e;
		bool fits = align(x, y, pa, pb, e) && padd(pa, pb, -1, d);
		if(!fits && constIs1(x.q) && constIs1(y.q) && coarsenPair(x, y, 90)) fits = align(x, y, pa, pb, e) && padd(pa, pb, -1, d);
		if(fits) {
			if((x.exact && y.exact) || (x.rn && y.rn)) {
				unsigned o = p & 7; Poly nd; padd(constPoly(0), d, -1, nd);
				switch(o) {
				case 0: return mkbool_const(false); case 7: return mkbool_const(true);
				case 1: return mkEQ0(d); case 6: return mkNot(mkEQ0(d));
				case 5: return mkLE0(d); case 2: return mkNot(mkLE0(d));
				case 3: return mkLE0(nd); case 4: return mkNot(mkLE0(nd));
				}
			}
			Poly qq; Range rq, rd;
			if(pmul(x.q, y.q, qq) && prange(qq, true, rq) && prange(d, true, rd)) {
				double E = ceil(ldexp((x.err + y.err) * (1 + 1e-12), -e) * toD(maxabs(rq)) * (1 + 1e-9));
				if(E < 1e30) {
					i128 K = (i128) E;
					i128 dv = pconc(d);
					Poly t = d; t.c -= K; // d > K
					Expr* gt = mkNot(mkLE0(t)); branch(gt, dv > K);
					if(dv > K) return mkbool_const((p & 2) != 0);
					Poly u; padd(constPoly(0), d, -1, u); u.c -= K; // -d > K
					Expr* lt = mkNot(mkLE0(u)); branch(lt, -dv > K);
					if(-dv > K) return mkbool_const((p & 4) != 0);
					++st.approx;
				}
			}
		}
	}
	if(a->num && a->num->ab) a = unAb(a);
	if(b->num && b->num->ab) b = unAb(b);
	a = canonC(a); b = canonC(b);
	if(b < a) { std::swap(a, b); p = swapF(p); }
	return mkFp(FCMP, p, c, a, b);
}

// ------------------------------------------------------------- shadow memory
struct Cell { Expr* e[4096]; u8 off[4096]; u32 used; };
static std::unordered_map<u64, Cell*> pages;
static u64 pc_tag[1024]; static Cell* pc_val[1024];
static bool pc_init = false;
static void pcinit() { if(!pc_init) { memset(pc_tag, 0xff, sizeof pc_tag); pc_init = true; } }
static inline Cell* page(u64 a, bool create) {
	u64 t = a >> 12; unsigned h = t & 1023;
	if(pc_tag[h] == t && (pc_val[h] || !create)) return pc_val[h];
	auto it = pages.find(t);
	Cell* c = it == pages.end() ? nullptr : it->second;
	if(!c && create) { c = (Cell*) calloc(1, sizeof(Cell)); pages[t] = c; }
	pc_tag[h] = t; pc_val[h] = c;
	return c;
}
static inline void clearMem(u64 a, u64 n) {
	while(n) {
		u64 in = a & 4095, m = std::min<u64>(n, 4096 - in);
		Cell* c = page(a, false);
		if(c && c->used) memset(&c->e[in], 0, m * sizeof(Expr*));
		a += m; n -= m;
	}
}
static inline void setByte(u64 a, Expr* e, u8 o) { Cell* c = page(a, true); c->used = 1; c->e[a & 4095] = e; c->off[a & 4095] = o; }
static inline Expr* getByte(u64 a, u8& o) { Cell* c = page(a, false); if(!c) return nullptr; o = c->off[a & 4095]; return c->e[a & 4095]; }
static int esize(Expr* e) { return e->isD ? 8 : (e->w + 7) / 8; }
static bool fresh(Expr* e, u64 base) { // do the bytes at base (start of e) still hold e's value?
	u64 v = 0; memcpy(&v, (void*) base, esize(e));
	return v == e->conc;
}
static Expr* byteOf(Expr* e, int off) {
	int w = esize(e) * 8;
	Expr* x = e->w == w ? e : mkCastI(ZEXT, w, e);
	if(w == 8) return x;
	if(x->op == CONST) return cbv(x->conc >> (off * 8), 8);
	Expr* r = mk(EXTRACT, 0, 8, (x->conc >> (off * 8)) & 0xff, x); r->k32 = off * 8;
	return r;
}
static Expr* loadMem(u64 a, u64 size, bool isD, int w) {
	u8 o = 0;
	Expr* first = getByte(a, o);
	bool any = first;
	bool uniform = first && o == 0 && esize(first) == (int) size;
	u8 o2;
	for(u64 i = 1; i < size; ++i) { Expr* x = getByte(a + i, o2); if(x) any = true; if(x != first || o2 != i) uniform = false; }
	if(!any) return nullptr;
	if(uniform) {
		if(!fresh(first, a)) { clearMem(a, size); return nullptr; }
		if(first->isD) return first; // also as i64: passed through as is
		if(isD) { return first; }
		if(first->w == w) return first;
		if(w > first->w) return mkCastI(ZEXT, w, first);
		return mkCastI(TRUNC, w, first);
	}
	// piecewise
	Expr* acc = nullptr;
	for(int i = (int) size - 1; i >= 0; --i) {
		u8 of; Expr* x = getByte(a + i, of);
		u8 raw = *(u8*) (a + i);
		Expr* b;
		if(x && x->isD) { pinDouble(x); x = nullptr; }
		if(x) {
			b = byteOf(x, of);
			if(b->conc != raw) b = cbv(raw, 8);
		} else b = cbv(raw, 8);
		if(!acc) acc = b;
		else if(acc->op == CONST && b->op == CONST) acc = cbv(acc->conc << 8 | b->conc, acc->w + 8);
		else if(acc->op == CONST && acc->conc == 0) acc = mkCastI(ZEXT, acc->w + 8, b);
		else acc = mk(CONCAT, 0, acc->w + 8, acc->conc << 8 | b->conc, acc, b);
	}
	if(isD) { pinInt(acc); return nullptr; }
	if(acc->w != w) acc = acc->w > w ? mkCastI(TRUNC, w, acc) : mkCastI(ZEXT, w, acc);
	return acc->op == CONST ? nullptr : acc;
}

// --------------------------------------------------------------- pass interface
static Expr* R(Expr* e) { return e && (e->op == CONST || e->op == FCONST) ? nullptr : e; }
static Expr* ibv(Expr* s, i64 v, int w) {
	if(!s) return cbv((u64) v, w);
	if(s->isD) { pinDouble(s); return cbv((u64) v, w); }
	if(s->w != w) { if(s->w < w) return mkCastI(ZEXT, w, s); return mkCastI(TRUNC, w, s); }
	return s;
}
static Expr* idb(Expr* s, i64 v) {
	if(!s) return fconst((u64) v);
	if(!s->isD) { pinInt(s); return fconst((u64) v); }
	return s;
}
static void verify(Expr* e, u64 v, char const* what) {
	if(e && e->conc != v) { bad = std::string("internal: shadow value differs in ") + what; finish(3); }
}
static u8* fn_seen = nullptr; // shared bitmap
extern "C" {
struct FnDesc { char const* name; u64 idx; };
extern FnDesc __start_symfn[] __attribute__((weak)); extern FnDesc __stop_symfn[] __attribute__((weak));
Expr* __sym_args[64]; Expr* __sym_ret[64]; void* __sym_callee; u64 __sym_nargs;

void __sym_enter(FnDesc* d) { if(fn_seen) fn_seen[d->idx] = 1; }
void __sym_conc(Expr* s, i64 v) { if(!s) return; Rt r; verify(s, s->isD ? (u64) v : (u64) v & mask(s->w), "conc"); pinExpr(s); }
void __sym_conc_any(Expr* s) { if(!s) return; Rt r; pinExpr(s); }
void __sym_clear(void* p, i64 n) { if(pages.empty()) return; clearMem((u64) p, n); }
void __sym_memcpy(void* d, void* s, i64 n) {
	if(pages.empty() || d == s) return;
	Rt r;
	u64 a = (u64) s, b = (u64) d;
	// quick: nothing symbolic in the source
	bool any = false;
	for(u64 t = a >> 12; t <= (a + n - 1) >> 12 && n; ++t) { Cell* c = page(t << 12, false); if(c && c->used) { any = true; break; } }
	if(!any) { clearMem(b, n); return; }
	std::vector<std::pair<Expr*, u8>> tmp(n);
	for(i64 i = 0; i < n; ++i) { u8 o = 0; Expr* e = getByte(a + i, o); tmp[i] = { e, o }; }
	clearMem(b, n);
	for(i64 i = 0; i < n; ++i) if(tmp[i].first) setByte(b + i, tmp[i].first, tmp[i].second);
}
void __sym_byval(void* d, void* s, i64 n) { if(s) __sym_memcpy(d, s, n); else __sym_clear(d, n); }
Expr* __sym_load(void* p, i64 size, int isD, int w) {
	if(pages.empty()) return nullptr;
	// fast negative
	u64 a = (u64) p; Cell* c = page(a, false);
	if(!c && ((a ^ (a + size - 1)) >> 12) == 0) return nullptr;
	if(c && !c->e[a & 4095] && size == 1) return nullptr;
	Rt r; return R(loadMem(a, size, isD, w));
}
void __sym_load_unsup(void* p, i64 n) {
	if(pages.empty()) return;
	u64 a = (u64) p; u8 o; Expr* last = nullptr;
	Cell* c = page(a, false);
	if(!c && ((a ^ (a + n - 1)) >> 12) == 0) return;
	for(i64 i = 0; i < n; ++i) { Expr* e = getByte(a + i, o); if(e && e != last) { if(fresh(e, a + i - o)) { Rt r; pinExpr(e); } last = e; } }
}
void __sym_store(void* p, i64 size, Expr* s) {
	if(!s) { if(!pages.empty()) clearMem((u64) p, size); return; }
	Rt r;
	u64 a = (u64) p;
	if(esize(s) != size) { if(s->isD) { pinDouble(s); clearMem(a, size); return; } s = mkCastI(s->w > size * 8 ? TRUNC : ZEXT, size * 8, s); }
	for(i64 i = 0; i < size; ++i) setByte(a + i, s, i);
}
void __sym_after(void* target, char const* name) {
	if(!__sym_callee) return;
	__sym_callee = nullptr;
	Rt r;
	char here;
	for(u64 i = 0; i < __sym_nargs; ++i) if(Expr* e = __sym_args[i]) {
		// a byval slot holds a pointer to a stack temporary, not an expression
		i64 dist = (char*) e - &here;
		if(dist > -(8 << 20) && dist < (8 << 20)) continue;
		pinExpr(e);
		pinnedExt.insert(name ? name : "(indirect)");
	}
}
static u8 opmap(int o) {
	// LLVM 18 opcodes: Add 13 FAdd 14 Sub 15 FSub 16 Mul 17 FMul 18 UDiv 19 SDiv 20 FDiv 21 URem 22 SRem 23 FRem 24 Shl 25 LShr 26 AShr 27 And 28 Or 29 Xor 30
	static u8 const m[31] = { 0,0,0,0,0,0,0,0,0,0,0,0,0, ADD, FADD, SUB, FSUB, MUL, FMUL, UDIV, SDIV, FDIV, UREM, SREM, 0, SHL, LSHR, ASHR, AND, OR, XOR };
	return m[o];
}
Expr* __sym_bin(int o, int w, Expr* sa, i64 a, Expr* sb, i64 b) {
	if(!sa && !sb) return nullptr;
	Rt r;
	u8 op = opmap(o);
	Expr *x = ibv(sa, a, w), *y = ibv(sb, b, w);
	if((op == UDIV || op == SDIV || op == UREM || op == SREM) && y->op != CONST) { Expr* z = mkICmp(P_EQ, w, y, cbv(0, w)); branch(z, z->conc); }
	return R(mkBin(op, w, x, y));
}
Expr* __sym_fbin(int o, Expr* sa, i64 a, Expr* sb, i64 b) {
	if(!sa && !sb) return nullptr;
	Rt r;
	Expr *x = idb(sa, a), *y = idb(sb, b);
	verify(x, a, "fbin"); verify(y, b, "fbin");
	if(o == 24) { pinDouble(x); pinDouble(y); unsups.insert("frem"); return nullptr; }
	return R(mkFBin(opmap(o), x, y));
}
Expr* __sym_fneg(Expr* s, i64 v) {
	if(!s) return nullptr;
	Rt r; Expr* a = unAb(idb(s, v));
	if(a->op == FCONST) return nullptr;
	Expr* e = mk(FNEG, 1, 64, asb(-asd(v)), a);
	if(a->num) { Num n = *a->num; padd(constPoly(0), n.p, -1, n.p); e->num = new Num(n); }
	return e;
}
Expr* __sym_fabs(Expr* s, i64 v) {
	if(!s) return nullptr;
	Rt r; Expr* a = idb(s, v);
	if(a->op == FCONST) return nullptr;
	if(a->num && a->num->ab) return a;
	if(!a->num) return mkFp(FABS, 0, asb(fabs(asd(v))), a, nullptr);
	Expr* e = mk(FABS, 1, 64, asb(fabs(asd(v))), a);
	if(a->num && a->num->exact) { Num n = *a->num; n.ab = true; e->num = new Num(n); }
	else if(a->num) {
		// sign decided against the enclosure when possible
		Expr* z = mkFCmp(4, a, fconst(asb(0.0))); // a < 0
		bool neg = asd(v) < 0;
		branch(z, neg);
		Num n = *a->num; if(neg) padd(constPoly(0), n.p, -1, n.p); e->num = new Num(n);
	}
	return e;
}
static Expr* roundOp(int mode, Expr* s, i64 v, double c) {
	if(!s) return nullptr;
	Rt r; Expr* a = unAb(idb(s, v));
	if(a->op == FCONST) return nullptr;
	if(a->num && a->num->exact) {
		if(a->num->e >= 0) return a;
		// enumerate the result: pin p div 2^-e by branching on an interval
		Num const& n = *a->num;
		i128 den = (i128) 1 << -n.e, k;
		if(-n.e < 60) {
			i128 pv = pconc(n.p);
			if(mode == 0) { k = ceildiv(pv, den); } else if(mode == 1) k = floordiv(pv, den); else { pinDouble(a); return nullptr; }
			Poly l = n.p, u; // floor: k*den <= p <= k*den+den-1 ; ceil: (k-1)*den+1 <= p <= k*den
			i128 lo = mode == 1 ? k * den : (k - 1) * den + 1, hi = lo + den - 1;
			Poly x = n.p; x.c -= hi; branch(mkLE0(x), true);
			padd(constPoly(lo), n.p, -1, x); branch(mkLE0(x), true);
			return nullptr;
		}
		pinDouble(a); return nullptr;
	}
	Expr* e = mk(FROUND, 1, 64, asb(c), a); e->k32 = mode; return e;
}
Expr* __sym_ceil(Expr* s, i64 v) { return roundOp(0, s, v, ceil(asd(v))); }
Expr* __sym_floor(Expr* s, i64 v) { return roundOp(1, s, v, floor(asd(v))); }
Expr* __sym_trunc(Expr* s, i64 v) { return roundOp(2, s, v, trunc(asd(v))); }
Expr* __sym_sqrt(Expr* s, i64 v) {
	if(!s) return nullptr;
	Rt r; Expr* a = unAb(idb(s, v));
	if(a->op == FCONST) return nullptr;
	return mk(FSQRT, 1, 64, asb(sqrt(asd(v))), a);
}
Expr* __sym_icmp(int p, int w, Expr* sa, i64 a, Expr* sb, i64 b) {
	if(!sa && !sb) return nullptr;
	Rt r;
	// LLVM: EQ 32 NE 33 UGT 34 UGE 35 ULT 36 ULE 37 SGT 38 SGE 39 SLT 40 SLE 41
	return R(mkICmp(p - 32, w, ibv(sa, a, w), ibv(sb, b, w)));
}
Expr* __sym_fcmp(int p, Expr* sa, i64 a, Expr* sb, i64 b) {
	if(!sa && !sb) return nullptr;
	Rt r;
	Expr *x = idb(sa, a), *y = idb(sb, b);
	verify(x, a, "fcmp"); verify(y, b, "fcmp");
	return R(mkFCmp(p, x, y));
}
Expr* __sym_fminmax(int mx, Expr* sa, i64 a, Expr* sb, i64 b) {
	if(!sa && !sb) return nullptr;
	Rt r;
	Expr *x = idb(sa, a), *y = idb(sb, b);
	Expr* c = mkFCmp(mx ? 2 : 4, x, y); branch(c, c->conc);
	return R(c->conc ? x : y);
}
Expr* __sym_cast(int op, int sD, int sW, int dD, int dW, Expr* s, i64 v) {
	if(!s) return nullptr;
	Rt r;
	// Trunc 38 ZExt 39 SExt 40 FPToUI 41 FPToSI 42 UIToFP 43 SIToFP 44 FPTrunc 45 FPExt 46 PtrToInt 47 IntToPtr 48 BitCast 49
	switch(op) {
	case 38: return s->isD ? (pinDouble(s), nullptr) : R(mkCastI(TRUNC, dW, ibv(s, v, sW)));
	case 39: return s->isD ? (pinDouble(s), nullptr) : R(mkCastI(ZEXT, dW, ibv(s, v, sW)));
	case 40: return s->isD ? (pinDouble(s), nullptr) : R(mkCastI(SEXT, dW, ibv(s, v, sW)));
	case 41: case 42: {
		Expr* a = unAb(idb(s, v));
		if(a->op == FCONST) return nullptr;
		if(a->num && a->num->exact && a->num->e >= 0 && a->num->e < 40) { Poly p; bool ok; if(pmul(a->num->p, constPoly((i128) 1 << a->num->e), p)) { Expr* e = withPoly(dW, p, &ok); Range rg; if(ok && (op == 42 || (prange(p, true, rg) && rg.lo >= 0))) return R(e); } }
		pinDouble(a); return nullptr;
	}
	case 43: case 44: {
		Expr* a = ibv(s, v, sW);
		if(a->op == CONST) return nullptr;
		Poly p; Range rg;
		if(a->op == ZEXT || a->op == SEXT) { // bounds by the source width
			Expr* b = a->a;
			if(!b->ip && b->w <= 16) { pinInt(b); return nullptr; }
		}
		if(a->op == ITE || a->w == 1) { pinInt(a); return nullptr; }
		if(getPoly(a, p) && prange(p, true, rg) && (op == 44 || rg.lo >= 0)) {
			Num n; n.p = p; n.q = one();
			double c = op == 44 ? (double) sx(a->conc, a->w) : (double) a->conc;
			Expr* e = mk(FPOLY, 1, 64, asb(c)); e->num = finishNum(n, false);
			if(e->num && e->num->exact) return e;
		}
		pinInt(a); return nullptr;
	}
	case 49: return s; // i64 <-> double
	default: pinExpr(s); return nullptr;
	}
}
void __sym_branch(Expr* s, bool c) { if(!s) return; Rt r; if(s->op == CONST) return; verify(s, c, "branch"); branch(s, c); }
Expr* __sym_select(int isD, int w, Expr* sc, bool c, Expr* sa, i64 a, Expr* sb, i64 b) {
	if(!sc) return c ? sa : sb;
	Rt r;
	if(isD || (sa && sa->isD) || (sb && sb->isD)) {
		if(!sa && !sb && a == b) return nullptr;
		if(sa == sb && sa) return sa;
		branch(sc, c); return c ? sa : sb;
	}
	Expr *x = ibv(sa, a, w), *y = ibv(sb, b, w);
	if(x == y || (x->op == CONST && y->op == CONST && x->conc == y->conc)) return R(x);
	int k = eval3(sc); if(k >= 0) return R(k ? x : y);
	if(w == 1) {
		if(x->op == CONST) return R(x->conc ? mkOr(sc, y) : mkAnd(mkNot(sc), y));
		if(y->op == CONST) return R(y->conc ? mkOr(mkNot(sc), x) : mkAnd(sc, x));
		return mk(ITE, 0, 1, c ? x->conc : y->conc, sc, x, y);
	}
	if(x->ip || y->ip) { branch(sc, c); return R(c ? x : y); }
	return mk(ITE, 0, w, c ? x->conc : y->conc, sc, x, y);
}
void __sym_switch(Expr* s, i64 v, int n, i64* cases) {
	if(!s) return;
	Rt r;
	if(s->isD) { pinDouble(s); return; }
	if(s->op == CONST) return;
	v &= mask(s->w);
	verify(s, v, "switch");
	for(int i = 0; i < n; ++i) {
		bool m = ((u64) cases[i] & mask(s->w)) == (u64) v;
		Expr* e = mkICmp(P_EQ, s->w, s, cbv(cases[i], s->w));
		if(e->op != CONST) branch(e, m);
		if(m) break;
	}
}
Expr* __sym_iintr(int op, int w, Expr* sa, i64 a, Expr* sb, i64 b) {
	if(!sa && !sb) return nullptr;
	Rt r;
	Expr *x = ibv(sa, a, w), *y = ibv(sb, b, w);
	switch(op) {
	case 0: case 1: case 2: case 3: {
		unsigned p[] = { P_ULT, P_UGT, P_SLT, P_SGT };
		Expr* c = mkICmp(p[op], w, x, y);
		if(c->op == CONST) return R(c->conc ? x : y);
		branch(c, c->conc); return R(c->conc ? x : y);
	}
	case 4: { Expr* c = mkICmp(P_SLT, w, x, cbv(0, w)); if(c->op != CONST) branch(c, c->conc); return R(c->conc ? mkBin(SUB, w, cbv(0, w), x) : x); }
	case 5: { Expr* c = mkICmp(P_ULT, w, x, y); if(c->op != CONST) branch(c, c->conc); return R(c->conc ? cbv(0, w) : mkBin(SUB, w, x, y)); }
	default: pinInt(x); return nullptr;
	}
}
Expr* __sym_ovf(int bop, int sg, int w, Expr* sa, i64 a, Expr* sb, i64 b) {
	if(!sa && !sb) return nullptr;
	Rt r;
	Expr *x = ibv(sa, a, w), *y = ibv(sb, b, w);
	u8 op = opmap(bop);
	Poly p, q, o; Range rg, rp, rq;
	if(getPoly(x, p) && getPoly(y, q) && (op == MUL ? pmul(p, q, o) : padd(p, q, op == SUB ? -1 : 1, o)) && prange(o, true, rg) && prange(p, true, rp) && prange(q, true, rq)) {
		if(sg && rg.lo >= -((i128) 1 << (w - 1)) && rg.hi < ((i128) 1 << (w - 1))) return nullptr;
		if(!sg && rp.lo >= 0 && rq.lo >= 0 && rg.lo >= 0 && rg.hi <= (i128) (u128) mask(w)) return nullptr;
	}
	i128 A = sg ? (i128) sx(a, w) : (i128) ((u64) a & mask(w)), B = sg ? (i128) sx(b, w) : (i128) ((u64) b & mask(w));
	i128 v = op == ADD ? A + B : op == SUB ? A - B : A * B;
	bool ov = sg ? v < -((i128) 1 << (w - 1)) || v >= ((i128) 1 << (w - 1)) : v < 0 || v > (i128) (u128) mask(w);
	Expr* e = mk(BOUNDOVF, 0, 1, ov, x, y); e->k32 = op | (sg ? 0x100 : 0);
	return e;
}
void __sym_unsup(char const* n) { Rt r; unsups.insert(n); }

// -------------------------------------------------------- library call wrappers
#define CONSUME() (__sym_callee = nullptr)
double __symw_ceil(double x) { CONSUME(); Expr* s = __sym_args[0]; __sym_ret[0] = s ? __sym_ceil(s, asb(x)) : nullptr; return ceil(x); }
double __symw_floor(double x) { CONSUME(); Expr* s = __sym_args[0]; __sym_ret[0] = s ? __sym_floor(s, asb(x)) : nullptr; return floor(x); }
double __symw_trunc(double x) { CONSUME(); Expr* s = __sym_args[0]; __sym_ret[0] = s ? __sym_trunc(s, asb(x)) : nullptr; return trunc(x); }
double __symw_sqrt(double x) { CONSUME(); Expr* s = __sym_args[0]; __sym_ret[0] = s ? __sym_sqrt(s, asb(x)) : nullptr; return sqrt(x); }
#define PINNED1(n) double __symw_##n(double x) { CONSUME(); if(Expr* s = __sym_args[0]) { Rt r; pinnedExt.insert(#n); pinExpr(s); } __sym_ret[0] = nullptr; return n(x); }
PINNED1(cos) PINNED1(sin) PINNED1(round)
#define PINNED2(n) double __symw_##n(double x, double y) { CONSUME(); for(int i = 0; i < 2; ++i) if(Expr* s = __sym_args[i]) { Rt r; pinnedExt.insert(#n); pinExpr(s); } __sym_ret[0] = nullptr; return n(x, y); }
PINNED2(pow)
double __symw_atan2(double y, double x) {
	CONSUME();
	Expr *a = __sym_args[0], *b = __sym_args[1];
	__sym_ret[0] = nullptr;
	if(a || b) { Rt r; pinnedExt.insert("atan2"); if(a) pinExpr(a); if(b) pinExpr(b); }
	return atan2(y, x);
}
void* __symw_memcpy(void* d, void const* s, size_t n) { CONSUME(); Expr* e = __sym_args[2]; if(e) { Rt r; pinExpr(e); } memcpy(d, s, n); __sym_memcpy(d, (void*) s, n); return d; }
void* __symw_memmove(void* d, void const* s, size_t n) {
	CONSUME(); Expr* e = __sym_args[2]; if(e) { Rt r; pinExpr(e); }
	// shadow first from the intact source
	{ if(!pages.empty()) {
		Rt r; std::vector<std::pair<Expr*, u8>> tmp(n); bool any = false;
		for(size_t i = 0; i < n; ++i) { u8 o = 0; Expr* x = getByte((u64) s + i, o); tmp[i] = { x, o }; if(x) any = true; }
		clearMem((u64) d, n);
		if(any) for(size_t i = 0; i < n; ++i) if(tmp[i].first) setByte((u64) d + i, tmp[i].first, tmp[i].second);
	} }
	memmove(d, s, n); return d;
}
void* __symw_memset(void* d, int c, size_t n) { CONSUME(); for(int i = 1; i < 3; ++i) if(Expr* e = __sym_args[i]) { Rt r; pinExpr(e); } memset(d, c, n); __sym_clear(d, n); return d; }
int __symw_memcmp(void const* a, void const* b, size_t n) {
	CONSUME(); if(Expr* e = __sym_args[2]) { Rt r; pinExpr(e); }
	__sym_load_unsup((void*) a, n); __sym_load_unsup((void*) b, n);
	__sym_ret[0] = nullptr;
	return memcmp(a, b, n);
}
size_t __symw_strlen(char const* a) { CONSUME(); size_t n = strlen(a); __sym_load_unsup((void*) a, n + 1); __sym_ret[0] = nullptr; return n; }

// --------------------------------------------------------------- harness API
static u64 rng_state;
static u64 rnd() { rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17; return rng_state; }
static int newInput(char const* name, u8 kind, i64 lo, i64 hi, int e) {
	z3init();
	Input in; in.name = name; in.kind = kind; in.lo = lo; in.hi = hi; in.e = e; in.atom = -1;
	size_t i = inputs.size();
	if(i < cur.vals.size()) in.val = cur.vals[i];
	else if(kind == 0) in.val = (u64) (lo + (i64) (rnd() % (u64) (hi - lo + 1)));
	else in.val = asb((double) (i64) (rnd() % 1000) / 8);
	if(kind == 0) { if((i64) in.val < lo) in.val = lo; if((i64) in.val > hi) in.val = hi; }
	Z3_symbol sy = Z3_mk_string_symbol(ctx, (std::string(name) + "!" + std::to_string(i)).c_str());
	if(kind == 0) {
		int w = std::max(2, sbits({ lo, hi }));
		in.z = Z3_mk_const(ctx, sy, bvs(w));
		domain_ax.push_back(Z3_mk_bvsle(ctx, zconst(lo, w), in.z));
		domain_ax.push_back(Z3_mk_bvsle(ctx, in.z, zconst(hi, w)));
		Atom a; a.lo = a.slo = lo; a.hi = a.shi = hi; a.input = i; a.conc = (i64) in.val; a.w = w;
		in.atom = atoms.size(); atoms.push_back(a);
	} else in.z = Z3_mk_const(ctx, sy, bvs(64));
	Z3_inc_ref(ctx, in.z);
	inputs.push_back(in);
	if(shared_vals && i < 4000) { shared_vals[1 + i] = (i64) in.val; shared_vals[0] = i + 1; }
	return i;
}
static Poly atomPoly(int a) { Poly p; p.t.push_back({ mono_id({ (u16) a }), 1 }); return p; }
int64_t sym_int(char const* name, int64_t lo, int64_t hi) {
	Rt r; CONSUME();
	if(lo >= hi) { __sym_ret[0] = nullptr; return lo; }
	int i = newInput(name, 0, lo, hi, 0);
	Expr* e = mk(POLYI, 0, 64, inputs[i].val); e->ip = new Poly(atomPoly(inputs[i].atom));
	__sym_ret[0] = e;
	return (i64) inputs[i].val;
}
int64_t sym_pick(char const* name, int64_t lo, int64_t hi) {
	i64 v = sym_int(name, lo, hi);
	Rt r; if(__sym_ret[0]) pinInt(__sym_ret[0]);
	__sym_ret[0] = nullptr;
	return v;
}
bool sym_bool(char const* name) {
	i64 v = sym_int(name, 0, 1);
	Rt r;
	Poly p = atomPoly(inputs.back().atom); p.c = -1;
	__sym_ret[0] = mkEQ0(p);
	return v;
}
double sym_grid(char const* name, int64_t lo, int64_t hi, int ex) {
	Rt r; CONSUME();
	if(lo >= hi) { __sym_ret[0] = nullptr; return ldexp((double) lo, ex); }
	int i = newInput(name, 0, lo, hi, ex);
	double v = ldexp((double) (i64) inputs[i].val, ex);
	Expr* e = mk(FPOLY, 1, 64, asb(v));
	Num* n = new Num; n->p = atomPoly(inputs[i].atom); n->q = one(); n->e = ex; n->exact = true; n->rn = isSmall(n->p);
	e->num = n;
	__sym_ret[0] = e;
	return v;
}
double sym_double(char const* name) {
	Rt r; CONSUME();
	int i = newInput(name, 1, 0, 0, 0);
	Expr* e = mk(FIN, 1, 64, inputs[i].val); e->k32 = i;
	__sym_ret[0] = e;
	return asd(inputs[i].val);
}
void sym_assume(bool c) {
	Rt r; CONSUME();
	if(Expr* e = __sym_args[0]) { if(e->op != CONST) branch(e->w == 1 ? e : mkICmp(P_EQ, e->w, e, cbv(1, e->w)), c); }
	if(!c) finish(1);
}
void sym_assert(bool c, char const* msg) {
	Rt r; CONSUME();
	bool inPrefix = ndec < cur.prefix.size() + (cur.excl.empty() ? 0 : 1);
	Expr* e = __sym_args[0];
	if(e && e->op == CONST) e = nullptr;
	if(e && e->w != 1) e = mkCastI(TRUNC, 1, e);
	if(!c) {
		viols.push_back({ msg, curTag, curVals() });
		if(!e) finish(2);
		// explore the inputs of this path on which it holds
		if(eval3(e) < 0) branch(e, c);
		finish(2);
	}
	// Up to the last flipped decision this path replays its parent's prefix, and
	// the parent has decided the assertions met there under a weaker condition.
	if(inPrefix) { if(e && eval3(e) < 0) addpc(e, true); return; }
	++st.obligations;
	if(!e) { ++st.obl_concrete; return; }
	int k = eval3(e);
	if(k == 1) { ++st.obl_interval; return; }
	std::vector<u64> m;
	int q = query({ { e, false } }, m);
	if(q == 1) viols.push_back({ msg, curTag, m });
	else if(q == 0) ++st.obl_solver;
	else ++st.obl_unknown;
	addpc(e, true);
}
void sym_cover(char const* l) { Rt r; CONSUME(); covers.insert(l); }
void sym_observe_int(int64_t v) { Rt r; CONSUME(); observed.push_back((u64) v); }
void sym_observe_double(double v) { Rt r; CONSUME(); observed.push_back(asb(v)); }
void sym_tag(char const* t) { Rt r; CONSUME(); curTag = t; }
void sym_stop(void) { finish(0); }

struct Case { char const* name; void (*fn)(void); char const* bounds; int tier; };
static std::vector<Case>& cases() { static std::vector<Case>* c = new std::vector<Case>; return *c; }
void sym_register(char const* name, void (*fn)(void), char const* bounds, int tier) { cases().push_back({ name, fn, bounds, tier }); }

// placeholder texts
struct Text { std::string s; Expr* e; double v; };
static std::vector<Text>& texts() { static std::vector<Text>* t = new std::vector<Text>; return *t; }
char const* sym_text(char const* name, double v) {
	Rt r; CONSUME();
	Expr* e = __sym_args[1];
	Text t; t.s = std::string("@") + name; t.e = e; t.v = v;
	texts().push_back(t);
	char* p = (char*) malloc(t.s.size() + 1); strcpy(p, t.s.c_str());
	return p;
}
// for symrt_infra
char const* symrt_new_text(void* e, double v) {
	Rt r; Text t; t.s = "@#" + std::to_string(texts().size()); t.e = (Expr*) e; t.v = v; texts().push_back(t);
	char* p = (char*) malloc(t.s.size() + 1); strcpy(p, t.s.c_str()); return p;
}
int symrt_find_text(char const* b, char const* e) { for(size_t i = 0; i < texts().size(); ++i) if(texts()[i].s.size() == (size_t) (e - b) && !memcmp(texts()[i].s.data(), b, e - b)) return i; return -1; }
void* symrt_text_expr(int i) { return texts()[i].e; }
double symrt_text_val(int i) { return texts()[i].v; }
void* symrt_uint_to_double(void* e, unsigned long v) { return __sym_cast(43, 0, 64, 1, 64, (Expr*) e, v); }
bool symrt_exact_to(void* e, int ex) { Expr* x = (Expr*) e; return x->num && x->num->exact && !x->num->ab && x->num->e >= ex; }
int symrt_enter() { return ++in_rt; }
void symrt_leave() { --in_rt; }
void symrt_pin(void* e) { if(e) { Rt r; pinExpr((Expr*) e); } }
void* symrt_double_to_int(void* e, double v, int w, int sg) { return __sym_cast(sg ? 42 : 41, 1, 64, 0, w, (Expr*) e, asb(v)); }
} // extern "C"

// ------------------------------------------------------------- child protocol
static void put(std::string& b, void const* p, size_t n) { b.append((char const*) p, n); }
static void putU(std::string& b, u64 v) { put(b, &v, 8); }
static void putS(std::string& b, std::string const& s) { putU(b, s.size()); b += s; }
static void putV(std::string& b, std::vector<u64> const& v) { putU(b, v.size()); put(b, v.data(), v.size() * 8); }
struct Rd { char const *p, *e; bool ok = true;
	u64 U() { u64 v = 0; if(e - p < 8) { ok = false; return 0; } memcpy(&v, p, 8); p += 8; return v; }
	std::string S() { u64 n = U(); if((u64) (e - p) < n) { ok = false; return ""; } std::string s(p, n); p += n; return s; }
	std::vector<u64> V() { u64 n = U(); std::vector<u64> v; if((u64) (e - p) < n * 8) { ok = false; return v; } v.resize(n); memcpy(v.data(), p, n * 8); p += n * 8; return v; }
};
[[noreturn]] static void finish(int status) {
	++in_rt;
	std::string b;
	putU(b, 0x53594d31); putU(b, status); putS(b, bad);
	put(b, &st, sizeof st);
	putU(b, newItems.size());
	for(auto& i : newItems) { putV(b, i.vals); putU(b, i.prefix.size()); for(auto& d : i.prefix) { putU(b, d.pin); putU(b, d.v); } putV(b, i.excl); }
	putU(b, viols.size());
	for(auto& v : viols) { putS(b, v.msg); putS(b, v.tag); putV(b, v.vals); }
	for(auto* s : { &covers, &pinnedExt, &unsups }) { putU(b, s->size()); for(auto& x : *s) putS(b, x); }
	putV(b, observed);
	putV(b, curVals());
	putU(b, inputs.size()); for(auto& i : inputs) putS(b, i.name);
	putU(b, trace.size());
	putU(b, 0x454e44);
	size_t o = 0; while(o < b.size()) { ssize_t n = write(result_fd, b.data() + o, b.size() - o); if(n <= 0) break; o += n; }
	_exit(0);
}

// Terminate handlers: crash inside the code under test.
static void onSignal(int s) {
	// report as crash with current inputs
	++in_rt;
	bad = std::string("crash: signal ") + std::to_string(s);
	finish(4);
}

struct Worker { pid_t pid; int fd; std::string buf; double t0; Item item; bool used = false; };

static std::string jstr(std::string const& s) { std::string o = "\""; for(char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if((u8) c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

int main(int argc, char** argv) {
	std::string only, out; int jobs = 8; double budget = 60, ptimeout = 20; int maxViol = 8; u64 maxPaths = ~0ull; int samples = 40;
	bool list = false; std::string dump; std::vector<u64> initVals; bool haveInit = false, single = false;
	for(int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(argv[++i]); };
		if(a == "--case") only = nx(); else if(a == "--out") out = nx(); else if(a == "--jobs") jobs = atoi(nx().c_str());
		else if(a == "--budget") budget = atof(nx().c_str()); else if(a == "--path-timeout") ptimeout = atof(nx().c_str());
		else if(a == "--query-timeout") opt_qtimeout = atof(nx().c_str()); else if(a == "--seed") opt_seed = strtoull(nx().c_str(), 0, 10);
		else if(a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10);
		else if(a == "--samples") samples = atoi(nx().c_str());
		else if(a == "--dump") dump = nx();
		else if(a == "-v") opt_verbose = true; else if(a == "--list") list = true;
		else if(a == "--single") single = true;
		else if(a == "--vals") { haveInit = true; char* s = argv[++i]; for(char* t = strtok(s, ","); t; t = strtok(nullptr, ",")) initVals.push_back((u64) strtoll(t, 0, 10)); }
	}
	if(list) { for(auto& c : cases()) printf("%s\t%d\t%s\n", c.name, c.tier, c.bounds); return 0; }
	Case* cs = nullptr; for(auto& c : cases()) if(only == c.name) cs = &c;
	if(!cs) { fprintf(stderr, "no such case\n"); return 2; }
	u64 nfn = __stop_symfn - __start_symfn;
	fn_seen = (u8*) mmap(nullptr, nfn + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for(u64 i = 0; i < nfn; ++i) __start_symfn[i].idx = i;
	arena_init(); pcinit();
	signal(SIGPIPE, SIG_IGN);
	rng_state = 0x9e3779b97f4a7c15ull ^ (opt_seed * 0xbf58476d1ce4e5b9ull); if(!rng_state) rng_state = 1;
	if(!dump.empty()) smt_dump = fopen(dump.c_str(), "w");

	std::vector<Item> queue; { Item it; if(haveInit) it.vals = initVals; queue.push_back(it); }
	std::vector<Worker> ws(jobs);
	Stats tot{}; u64 paths = 0, completed = 0, assumeStop = 0, diverged = 0, crashes = 0, timeouts = 0, errors = 0, withAssert = 0, maxDec = 0; 
	std::map<std::string, int> nviol; std::vector<Viol> allViol; std::vector<std::string> names;
	std::map<std::string, u64> errs; std::set<std::string> cov, pin, uns;
	struct Sample { std::vector<u64> vals, obs; u64 st; }; std::vector<Sample> smp; u64 smpSeen = 0;
	std::set<std::string> tmo;
	double t0 = now(); bool outOfBudget = false; int running = 0;
	u64 srng = opt_seed * 77 + 5, pickn = 0;
	i64* shv_all = (i64*) mmap(nullptr, 4096 * 8 * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	while(true) {
		if(now() - t0 > budget || paths >= maxPaths) outOfBudget = outOfBudget || !queue.empty();
		for(auto& w : ws) if(!w.used && !queue.empty() && now() - t0 <= budget && paths < maxPaths) {
			if(queue.size() > 1 && queue.size() < 20000 && (++pickn & 1)) {
				srng ^= srng << 13; srng ^= srng >> 7; srng ^= srng << 17;
				std::swap(queue[srng % queue.size()], queue.back());
			}
			w.item = std::move(queue.back()); queue.pop_back();
			i64* shv = shv_all + 4096 * (&w - ws.data()); shv[0] = 0;
			int p[2]; if(pipe(p)) { perror("pipe"); return 2; }
			fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
			++paths;
			pid_t pid = fork();
			if(pid == 0) {
				close(p[0]); result_fd = p[1];
				for(auto& o : ws) if(o.used) close(o.fd);
				cur = w.item; shared_vals = shv;
				rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
				rl = { 4500ull << 20, 4500ull << 20 }; setrlimit(RLIMIT_DATA, &rl);
				static char alt[1 << 16]; stack_t ss{ alt, 0, sizeof alt }; sigaltstack(&ss, nullptr);
				for(int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGTRAP }) { struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_RESETHAND; sigaction(s, &sa, nullptr); }
				in_rt = 0;
				try { cs->fn(); } catch(std::exception const& e) { ++in_rt; bad = std::string("crash: uncaught exception: ") + e.what(); finish(4); } catch(...) { ++in_rt; bad = "crash: uncaught exception"; finish(4); }
				finish(0);
			}
			close(p[1]);
			w.pid = pid; w.fd = p[0]; w.buf.clear(); w.t0 = now(); w.used = true; ++running;
		}
		if(!running) break;
		std::vector<pollfd> pf; std::vector<int> ix;
		for(int i = 0; i < (int) ws.size(); ++i) if(ws[i].used) { pf.push_back({ ws[i].fd, POLLIN, 0 }); ix.push_back(i); }
		poll(pf.data(), pf.size(), 200);
		for(size_t k = 0; k < pf.size(); ++k) {
			Worker& w = ws[ix[k]];
			bool done = false, tm = false;
			if(pf[k].revents) {
				static char tmp[1 << 16];
				ssize_t n = read(w.fd, tmp, sizeof tmp);
				if(n > 0) w.buf.append(tmp, n); else done = true;
			}
			if(!done && now() - w.t0 > ptimeout) { kill(w.pid, SIGKILL); done = tm = true; }
			if(!done) continue;
			close(w.fd); int stt; waitpid(w.pid, &stt, 0); w.used = false; --running;
			if(tm) { ++timeouts; Viol v{ "path timeout (possible endless loop)", "", w.item.vals }; { i64* sv = shv_all + 4096 * (&w - ws.data()); if(sv[0] > 0 && (size_t) sv[0] > v.vals.size()) v.vals.assign(sv + 1, sv + 1 + sv[0]); } if(nviol[v.msg]++ < maxViol) allViol.push_back(v); continue; }
			Rd r{ w.buf.data(), w.buf.data() + w.buf.size() };
			if(r.U() != 0x53594d31 || w.buf.size() < 8) {
				++errors; errs["child ended without a report (status " + std::to_string(stt) + ")"]++; continue; }
			u64 status = r.U(); std::string bd = r.S();
			Stats s; if((size_t) (r.e - r.p) < sizeof s) { ++errors; continue; } memcpy(&s, r.p, sizeof s); r.p += sizeof s;
			std::vector<Item> its; u64 n = r.U();
			for(u64 i = 0; i < n && r.ok; ++i) { Item it; it.vals = r.V(); u64 m = r.U(); for(u64 j = 0; j < m && r.ok; ++j) { Dec d; d.pin = r.U(); d.v = r.U(); it.prefix.push_back(d); } it.excl = r.V(); its.push_back(std::move(it)); }
			std::vector<Viol> vs; n = r.U();
			for(u64 i = 0; i < n && r.ok; ++i) { Viol v; v.msg = r.S(); v.tag = r.S(); v.vals = r.V(); vs.push_back(v); }
			for(auto* ss : { &cov, &pin, &uns }) { n = r.U(); for(u64 i = 0; i < n && r.ok; ++i) ss->insert(r.S()); }
			auto obs = r.V(); auto vals = r.V();
			n = r.U(); std::vector<std::string> nm; for(u64 i = 0; i < n && r.ok; ++i) nm.push_back(r.S());
			u64 tl = r.U();
			if(!r.ok || r.U() != 0x454e44) { ++errors; errs["truncated report"]++; continue; }
			if(nm.size() > names.size()) names = nm;
			maxDec = std::max(maxDec, tl);
			u64* a = (u64*) &tot; u64* b = (u64*) &s; for(size_t i = 0; i < offsetof(Stats, stime) / 8; ++i) a[i] += b[i]; tot.stime += s.stime;
			if(s.obligations) ++withAssert;
			switch(status) {
			case 0: ++completed; break;
			case 1: ++assumeStop; break;
			case 2: ++completed; break;
			case 3: ++diverged; errs[bd]++; if(opt_verbose) { fprintf(stderr, "BAD %s vals:", bd.c_str()); for(u64 v : vals) fprintf(stderr, " %lld", (long long) v); fprintf(stderr, "\n"); } break;
			case 4: ++crashes; vs.push_back({ bd, "", vals }); break;
			}
			for(auto& v : vs) if(nviol[v.tag + "|" + v.msg]++ < maxViol) allViol.push_back(v);
			for(auto& it : its) queue.push_back(std::move(it));
			if(status == 0 && samples) { // reservoir sample of complete paths
				++smpSeen; Sample sm{ vals, obs, status };
				srng ^= srng << 13; srng ^= srng >> 7; srng ^= srng << 17;
				if((int) smp.size() < samples) smp.push_back(sm); else { u64 j = srng % smpSeen; if(j < (u64) samples) smp[j] = sm; }
			}
			if(opt_verbose && paths % 500 == 0) fprintf(stderr, "[%s] %.0fs paths %llu queue %zu viol %zu\n", cs->name, now() - t0, (unsigned long long) paths, queue.size(), allViol.size());
		}
		if(single) queue.clear();
	}
	bool exhaustive = queue.empty() && !outOfBudget && !diverged && !errors && !timeouts && !tot.unknown && !tot.obl_unknown && !single;
	FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
	auto arr = [&](std::vector<u64> const& v, std::vector<u8> const* = nullptr) { std::string s = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) s += ","; s += std::to_string((long long) v[i]); } return s + "]"; };
	auto strs = [&](auto const& v) { std::string s = "["; bool f1 = true; for(auto& x : v) { if(!f1) s += ","; f1 = false; s += jstr(x); } return s + "]"; };
	std::vector<std::string> fns; for(u64 i = 0; i < nfn; ++i) if(fn_seen[i]) fns.push_back(__start_symfn[i].name);
	std::sort(fns.begin(), fns.end()); fns.erase(std::unique(fns.begin(), fns.end()), fns.end());
	fprintf(f, "{\"case\":%s,\"bounds\":%s,\"exhaustive\":%s,\"paths\":%llu,\"completed\":%llu,\"assume_stopped\":%llu,\"diverged\":%llu,\"crashes\":%llu,\"timeouts\":%llu,\"errors\":%llu,\"pending\":%zu,\"paths_with_obligations\":%llu,\"max_decisions\":%llu,",
		jstr(cs->name).c_str(), jstr(cs->bounds).c_str(), exhaustive ? "true" : "false", (unsigned long long) paths, (unsigned long long) completed, (unsigned long long) assumeStop, (unsigned long long) diverged, (unsigned long long) crashes, (unsigned long long) timeouts, (unsigned long long) errors, queue.size(), (unsigned long long) withAssert, (unsigned long long) maxDec);
	fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"branches\":%llu,\"implied\":%llu,\"pins\":%llu,\"obligations\":%llu,\"obl_interval\":%llu,\"obl_solver\":%llu,\"obl_concrete\":%llu,\"obl_unknown\":%llu,\"fp_queries\":%llu,\"near_ties\":%llu,\"linear_queries\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,",
		(unsigned long long) tot.queries, (unsigned long long) tot.sat, (unsigned long long) tot.unsat, (unsigned long long) tot.unknown, (unsigned long long) tot.branches, (unsigned long long) tot.implied, (unsigned long long) tot.pins, (unsigned long long) tot.obligations, (unsigned long long) tot.obl_interval, (unsigned long long) tot.obl_solver, (unsigned long long) tot.obl_concrete, (unsigned long long) tot.obl_unknown, (unsigned long long) tot.fpq, (unsigned long long) tot.approx, (unsigned long long) tot.lin, tot.stime, now() - t0);
	fprintf(f, "\"covers\":%s,\"pinned_externals\":%s,\"unsupported\":%s,\"input_names\":%s,", strs(cov).c_str(), strs(pin).c_str(), strs(uns).c_str(), strs(names).c_str());
	fprintf(f, "\"error_kinds\":{"); { bool f1 = true; for(auto& [k, v] : errs) { fprintf(f, "%s%s:%llu", f1 ? "" : ",", jstr(k).c_str(), (unsigned long long) v); f1 = false; } } fprintf(f, "},");
	fprintf(f, "\"violation_counts\":{"); { bool f1 = true; for(auto& [k, v] : nviol) { fprintf(f, "%s%s:%d", f1 ? "" : ",", jstr(k).c_str(), v); f1 = false; } } fprintf(f, "},");
	fprintf(f, "\"violations\":["); for(size_t i = 0; i < allViol.size(); ++i) fprintf(f, "%s{\"msg\":%s,\"tag\":%s,\"vals\":%s}", i ? "," : "", jstr(allViol[i].msg).c_str(), jstr(allViol[i].tag).c_str(), arr(allViol[i].vals).c_str()); fprintf(f, "],");
	fprintf(f, "\"samples\":["); for(size_t i = 0; i < smp.size(); ++i) fprintf(f, "%s{\"vals\":%s,\"obs\":%s}", i ? "," : "", arr(smp[i].vals).c_str(), arr(smp[i].obs).c_str()); fprintf(f, "],");
	fprintf(f, "\"functions\":%s}\n", strs(fns).c_str());
	if(f != stdout) fclose(f);
	return 0;
}
