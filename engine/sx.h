// Harness API.  The same harness source is compiled twice: instrumented (sxrt.cpp explores it
// symbolically) and natively with the unmodified /repo sources (sxnative.cpp replays a model).
#ifndef SX_H
#define SX_H
#include <cstdint>
#include <cstddef>
#include <string>
extern "C" {
// fresh symbolic input within [lo,hi]
double sx_double(const char* name, double lo, double hi);
int64_t sx_int(const char* name, int64_t lo, int64_t hi);
// symbolic input whose value is enumerated (every feasible value is its own set of paths)
int sx_choose(const char* name, int lo, int hi);
void sx_assume(bool c);
void sx_assert(bool c, const char* msg);
// |a-b| <= tol
void sx_close(double a, double b, double tol, const char* msg);
void sx_reach(const char* label);
// value of a double input concretised?  (true when running natively)
int sx_native(void);
void sx_note(const char* text);
void sx_register_harness(const char* name, void (* fn)(), int ieee, const char* bounds);
}
static inline bool sx_bool(const char* n) { return sx_choose(n, 0, 1) != 0; }
struct SxReg { SxReg(const char* n, void (*f)(), int ieee, const char* bounds) { sx_register_harness(n, f, ieee, bounds); } };
#define SX_HARNESS(name, bounds) static void sxh_ ## name(); static SxReg sxr_ ## name(#name, sxh_ ## name, 0, bounds); static void sxh_ ## name()
#define SX_HARNESS_IEEE(name, bounds) static void sxh_ ## name(); static SxReg sxr_ ## name(#name, sxh_ ## name, 1, bounds); static void sxh_ ## name()
// names for indexed inputs
static inline std::string sx_n(const char* base, int i) { return std::string(base) + std::to_string(i); }
static inline std::string sx_n(const char* base, int i, int j) { return std::string(base) + std::to_string(i) + "_" + std::to_string(j); }
#endif
