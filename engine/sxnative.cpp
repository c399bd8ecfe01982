// Native replay runtime: runs one harness on the values of a model file against the real,
// uninstrumented code.  exit 0: every assertion held; 42: an assertion failed; 43: an
// assumption does not hold for these values; anything else: crash / uncaught exception.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <string>
#include <cmath>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <sys/resource.h>
struct H { std::string name; void (*fn)(); int ieee; };
static std::vector<H>& hs() { static std::vector<H> v; return v; }
static std::map<std::string, std::string> model;
static std::map<std::string, int> seen;
static int fails = 0;
static double defVal(const std::string& n, double lo, double hi)
{
	unsigned h = 2166136261u;
	for(char c : n) h = (h ^ (unsigned char) c) * 16777619u;
	double f = 0.25 + 0.5 * ((h >> 8) % 1000) / 1000.0;
	return lo + (hi - lo) * f;
}
static std::string uniq(const char* n)
{
	int k = seen[n]++;
	return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
extern "C" {
double sx_double(const char* name, double lo, double hi)
{
	std::string n = uniq(name);
	auto it = model.find(n);
	double v = it == model.end() ? defVal(n, lo, hi) : strtod(it->second.c_str(), nullptr);
	if(getenv("SX_ECHO")) printf("SXIN %s = %.17g\n", n.c_str(), v);
	return v;
}
int64_t sx_int(const char* name, int64_t lo, int64_t hi)
{
	std::string n = uniq(name);
	auto it = model.find(n);
	int64_t v = it == model.end() ? lo : (int64_t) strtoll(it->second.c_str(), nullptr, 10);
	if(getenv("SX_ECHO")) printf("SXIN %s = %lld\n", n.c_str(), (long long) v);
	return v;
}
int sx_choose(const char* name, int lo, int hi) { return (int) sx_int(name, lo, hi); }
void sx_assume(bool c) { if(!c) { printf("SXASSUME\n"); fflush(stdout); _exit(fails ? 42 : 43); } }
// assertions listed in SX_KNOWN (recorded findings) are reported but do not fail the run
static bool known(const char* msg)
{
	const char* k = getenv("SX_KNOWN");
	while(k && *k)
	{
		const char* e = strchr(k, '\n');
		size_t n = e ? (size_t) (e - k) : strlen(k);
		if(strlen(msg) == n && !strncmp(k, msg, n)) { printf("SXKNOWN %s\n", msg); fflush(stdout); return true; }
		k = e ? e + 1 : nullptr;
	}
	return false;
}
void sx_assert(bool c, const char* msg) { if(!c) { if(known(msg)) return; fails++; printf("SXFAIL %s\n", msg); fflush(stdout); } }
void sx_close(double a, double b, double tol, const char* msg)
{
	if(!(std::fabs(a - b) <= tol)) { if(known(msg)) return; fails++; printf("SXFAIL %s (got %.17g, expected %.17g, tolerance %g)\n", msg, a, b, tol); fflush(stdout); }
}
void sx_reach(const char*) {}
int sx_native(void) { return 1; }
void sx_note(const char* t) { if(getenv("SX_ECHO")) printf("SXNOTE %s\n", t); }
void sx_register_harness(const char* name, void (*fn)(), int ieee, const char*) { hs().push_back({name, fn, ieee}); }
}
int main(int argc, char** argv)
{
	if(argc < 2) { for(auto& h : hs()) printf("%s\n", h.name.c_str()); return 0; }
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	if(argc > 2)
	{
		FILE* f = fopen(argv[2], "r");
		char line[1024];
		while(f && fgets(line, sizeof line, f))
		{
			char* e = strchr(line, '\t');
			if(!e) continue;
			*e = 0;
			char* v = e + 1;
			v[strcspn(v, "\n")] = 0;
			model[line] = v;
		}
		if(f) fclose(f);
	}
	for(auto& h : hs())
		if(h.name == argv[1])
		{
			try { h.fn(); }
			catch(std::exception& e) { printf("SXFAIL uncaught exception %s: %s\n", typeid(e).name(), e.what()); fails++; }
			catch(...) { printf("SXFAIL uncaught exception\n"); fails++; }
			fflush(stdout);
			_exit(fails ? 42 : 0);
		}
	fprintf(stderr, "no such harness\n");
	return 2;
}
