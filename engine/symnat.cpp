// symnat: runtime for the native build of a harness. Inputs are concrete
// numbers; used to replay the solver's counterexamples, and samples of explored
// paths, against the real code built with the project's own compiler and flags.
#include "sym.h"
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

struct Case { char const* name; void (*fn)(void); };
static std::vector<Case>& cases() { static auto* c = new std::vector<Case>; return *c; }
static std::vector<int64_t> vals; static size_t nextIn = 0;
static int rfd = 1; static bool verbose = false;
static std::string obs, curTag;
static void say(std::string const& s) { size_t o = 0; while(o < s.size()) { auto n = write(rfd, s.data() + o, s.size() - o); if(n <= 0) break; o += n; } }
[[noreturn]] static void fin(std::string const& verdict) { say(verdict + "\t" + curTag + "\t" + obs + "\n"); _exit(0); }
static int64_t take(char const* n, int64_t lo, int64_t hi, bool dbl) {
	int64_t v = nextIn < vals.size() ? vals[nextIn] : lo; ++nextIn;
	if(!dbl) { if(v < lo) v = lo; if(v > hi) v = hi; }
	(void) n;
	return v;
}
extern "C" {
int64_t sym_int(char const* n, int64_t lo, int64_t hi) { if(lo >= hi) return lo; int64_t v = take(n, lo, hi, false); if(verbose) printf("  input %s = %lld\n", n, (long long) v); return v; }
int64_t sym_pick(char const* n, int64_t lo, int64_t hi) { return sym_int(n, lo, hi); }
bool sym_bool(char const* n) { return sym_int(n, 0, 1) != 0; }
double sym_grid(char const* n, int64_t lo, int64_t hi, int e) { if(lo >= hi) return ldexp((double) lo, e); int64_t v = take(n, lo, hi, false); double d = ldexp((double) v, e); if(verbose) printf("  input %s = %.17g\n", n, d); return d; }
double sym_double(char const* n) { int64_t v = take(n, 0, 0, true); double d; memcpy(&d, &v, 8); if(verbose) printf("  input %s = %.17g (bits %016llx)\n", n, d, (unsigned long long) v); return d; }
void sym_assume(bool c) { if(!c) fin("assume"); }
void sym_assert(bool c, char const* m) { if(!c) fin(std::string("assert ") + m); }
void sym_cover(char const*) {}
void sym_observe_int(int64_t v) { obs += std::to_string((long long) v) + ","; }
void sym_observe_double(double d) { int64_t v; memcpy(&v, &d, 8); obs += std::to_string((long long) v) + ","; }
void sym_tag(char const* t) { curTag = t; }
void sym_stop(void) { fin("ok"); }
char const* sym_text(char const*, double v) { char b[64]; snprintf(b, 64, "%.17g", v); return strdup(b); }
void sym_register(char const* name, void (*fn)(void), char const*, int) { cases().push_back({ name, fn }); }
}
static void onsig(int s) { fin("crash signal " + std::to_string(s)); }
int main(int argc, char** argv) {
	std::string only, file; double tmo = 10; bool one = false;
	for(int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if(a == "--case") only = argv[++i]; else if(a == "--file") file = argv[++i]; else if(a == "--timeout") tmo = atof(argv[++i]);
		else if(a == "--vals") { one = true; std::stringstream s(argv[++i]); std::string t; while(getline(s, t, ',')) if(!t.empty()) vals.push_back(strtoll(t.c_str(), 0, 10)); }
	}
	void (*fn)(void) = nullptr; for(auto& c : cases()) if(only == c.name) fn = c.fn;
	if(!fn) { fprintf(stderr, "no such case %s\n", only.c_str()); return 2; }
	std::vector<std::vector<int64_t>> all;
	if(one) all.push_back(vals);
	else { std::ifstream f(file); std::string l; while(getline(f, l)) { std::vector<int64_t> v; std::stringstream s(l); std::string t; while(getline(s, t, ',')) if(!t.empty()) v.push_back(strtoll(t.c_str(), 0, 10)); all.push_back(v); } }
	bool viol = false;
	for(auto& v : all) {
		int p[2]; if(pipe(p)) return 2;
		fflush(stdout);
		pid_t pid = fork();
		if(!pid) {
			close(p[0]); rfd = p[1]; vals = v; nextIn = 0; verbose = one;
			setvbuf(stdout, nullptr, _IONBF, 0);
			rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
			rl = { 3ull << 30, 3ull << 30 }; setrlimit(RLIMIT_DATA, &rl);
			static char alt[1 << 16]; stack_t ss{ alt, 0, sizeof alt }; sigaltstack(&ss, nullptr);
			for(int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGTRAP }) { struct sigaction sa{}; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_RESETHAND; sigaction(s, &sa, nullptr); }
			try { fn(); } catch(std::exception const& e) { fin(std::string("crash uncaught exception: ") + e.what()); } catch(...) { fin("crash uncaught exception"); }
			fin("ok");
		}
		close(p[1]);
		std::string b; char tmp[65536]; bool timeout = false;
		timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
		for(;;) {
			timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
			double left = tmo - (t.tv_sec - t0.tv_sec) - (t.tv_nsec - t0.tv_nsec) * 1e-9;
			if(left <= 0) { timeout = true; break; }
			pollfd pf{ p[0], POLLIN, 0 };
			if(poll(&pf, 1, (int) (left * 1000) + 1) <= 0) continue;
			auto n = read(p[0], tmp, sizeof tmp); if(n <= 0) break; b.append(tmp, n);
		}
		if(timeout) kill(pid, SIGKILL);
		int st; waitpid(pid, &st, 0); close(p[0]);
		if(timeout) b = "timeout\t\t\n"; else if(b.empty()) b = "crash without report\t\t\n";
		printf("%s", b.c_str());
		if(b.compare(0, 6, "assert") == 0 || b.compare(0, 5, "crash") == 0 || b.compare(0, 7, "timeout") == 0) viol = true;
	}
	return viol ? 1 : 0;
}
