// Comparison of computed reals.  In real-arithmetic mode a counterexample has to
// miss the expected value by more than the tolerance; the native replay, which
// rounds, accepts a miss of half of it, so rounding alone never counts.
#ifndef NEAR_H
#define NEAR_H
#include "vsym.h"
#include <cmath>
static inline bool nearTo(double a, double b, double tol = 0.01) { double d = a - b; if(d < 0) d = -d; return d <= (vs_realmode() ? tol : tol / 2); }
static inline bool notAbove(double a, double b, double tol = 0.01) { return a <= b + (vs_realmode() ? tol : tol / 2); }
// a real in [lo,hi]
static inline float rin(double lo, double hi, const char* n) { float f = vs_f32(n); vs_assume(f >= lo && f <= hi); return f; }
#endif
