// helpers shared by the harnesses: branch-free predicates (so that the oracle does not fork paths)
#ifndef HX_H
#define HX_H
#include "sx.h"
#include <cmath>
static inline bool within(double v, double lim) { return (v < lim) & (-v < lim); }       // |v| < lim
static inline bool beyond(double v, double lim) { return (v > lim) | (-v > lim); }       // |v| > lim
static inline void sx_implies(bool a, bool b, const char* msg) { sx_assert((!a) | b, msg); }
#endif
