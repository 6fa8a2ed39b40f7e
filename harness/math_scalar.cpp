// C10: rounding, powers of two, clamping, random numbers and low-discrepancy points.
#include "vsym.h"
#include <cmath>
#include <cstring>
#include <aqsis/math/math.h>
#include <aqsis/math/random.h>
#include <aqsis/math/lowdiscrep.h>
using namespace Aqsis;
template<class T> static void rounding(T x) {
    const double L = 1073741824.0; vs_assume(x > -L && x < L);
    long f = lfloor(x); vs_assert((double)f <= (double)x && (double)x < (double)f + 1, "lfloor is the largest integer not above its argument");
    long c = lceil(x); vs_assert((double)c >= (double)x && (double)x > (double)c - 1, "lceil is the smallest integer not below its argument");
    if(sizeof(T) == 8) { vs_reach("end"); return; }
    long r = Aqsis::lround(x); double d = (double)x - (double)r; vs_assert(d >= -0.5 && d <= 0.5, "lround is a nearest integer");
    vs_reach("end");
}
static void roundT() { float x = vs_f32("x"); vs_assume(x > -8388608.0f && x < 8388608.0f); float r = Aqsis::round(x); double d = (double)x - r; vs_assert(d >= -0.5 && d <= 0.5 && (float)(long)r == r, "round is a nearest integer"); vs_reach("end"); }
static void pow2() {
    unsigned x = vs_u32("x"); vs_assume(x >= 1 && x <= 0x80000000u); unsigned y = ceilPow2(x);
    vs_assert(y >= x && (y & (y - 1)) == 0 && y != 0, "ceilPow2 is a power of two not below its argument"); vs_assert(y / 2 < x, "ceilPow2 is the smallest such power"); vs_reach("end");
}
static void clamps() {
    float x = vs_f32("x"), lo = vs_f32("lo"), hi = vs_f32("hi"); vs_assume(lo <= hi && x == x);
    float c = clamp(x, lo, hi); vs_assert(c >= lo && c <= hi && (c == x || (x < lo && c == lo) || (x > hi && c == hi)), "clamp restricts to the range");
    int a = vs_i32("a"), b = vs_i32("b"); int mn = Aqsis::min(a, b), mx = Aqsis::max(a, b); vs_assert(mn <= a && mn <= b && (mn == a || mn == b), "min"); vs_assert(mx >= a && mx >= b && (mx == a || mx == b), "max");
    int ci = clamp(a, -7, 9); vs_assert(ci >= -7 && ci <= 9 && (a < -7 || a > 9 || ci == a), "integer clamp");
    vs_assert(lerp(0.0f, 3.0f, 5.0f) == 3.0f && lerp(1.0f, 3.0f, 5.0f) == 5.0f, "lerp ends"); vs_reach("end");
}
// reference Mersenne twister
static uint32_t mtA[624]; static void mtSeed(uint32_t s) { mtA[0] = s; for(uint32_t i = 1; i < 624; ++i) mtA[i] = 1812433253u * (mtA[i - 1] ^ (mtA[i - 1] >> 30)) + i; }
static void mtGen() { for(int k = 0; k < 624; ++k) { uint32_t y = (mtA[k] & 0x80000000u) | (mtA[(k + 1) % 624] & 0x7fffffffu); mtA[k] = mtA[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0); } }
static uint32_t mtOut(int i) { uint32_t y = mtA[i]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); }
static void sequence() {
    // the generator is MT19937: 700 numbers after each of several seeds, whatever was drawn before
    static const unsigned seeds[] = {5489u, 0, 1, 0xffffffffu, 123456789u}; CqRandom r; int drawn = vs_choose(0, 2, "before"); for(int i = 0; i < drawn * 300; ++i) r.RandomInt();
    unsigned s = seeds[vs_choose(0, 4, "seed")]; r.Reseed(s); mtSeed(s); bool ok = true;
    for(int b = 0; b < 2; ++b) { mtGen(); for(int i = 0; i < (b ? 76 : 624); ++i) ok &= r.RandomInt() == mtOut(i); }
    vs_assert(ok, "reseeding restarts the same sequence of numbers"); vs_reach("end");
}
static void lowdisc() {
    CqLowDiscrepancy q(vs_choose(1, 4, "dims")); int axis = 0; unsigned i = (unsigned)vs_choose(0, 63, "i"); float v = q.Generate(axis, i); vs_assert(v >= 0 && v < 1, "low-discrepancy points are in [0,1)");
    vs_assert(q.Generate(axis, 0) == 0, "first point");
    unsigned j = (unsigned)vs_choose(0, 63, "j"); vs_assume(i < j); vs_assert(v != q.Generate(axis, j), "distinct indices give distinct points"); vs_reach("end");
}
void harness() {
    switch(vs_case()) { case 0: rounding<float>(vs_f32("x")); break; case 1: rounding<double>(vs_f64("x")); break; case 2: roundT(); break; case 3: pow2(); break; case 4: clamps(); break; case 5: sequence(); break; case 6: lowdisc(); break; }
}
