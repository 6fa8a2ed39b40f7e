// Harness interface.  Under vsym these are built-ins whose results are
// symbolic; in a native replay they return the values of a counterexample.
#ifndef VSYM_H
#define VSYM_H
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t vs_u8(const char* name);
uint16_t vs_u16(const char* name);
uint32_t vs_u32(const char* name);
uint64_t vs_u64(const char* name);
int32_t vs_i32(const char* name);
int64_t vs_i64(const char* name);
float vs_f32(const char* name);
double vs_f64(const char* name);
bool vs_bool(const char* name);
void vs_sym(void* p, size_t n, const char* name);
int vs_range(int lo, int hi, const char* name);      // symbolic int in [lo,hi]
int vs_choose(int lo, int hi, const char* name);     // same, but one path per value
void vs_assume(bool c);
void vs_assert(bool c, const char* msg);
void vs_fail(const char* msg);
void vs_reach(const char* label);
void vs_note(const char* s);
int vs_case();
int vs_tier();
bool vs_symbolic();
bool vs_realmode();
bool vs_issym(unsigned long v);
bool vs_issymf(double v);
unsigned long vs_concrete(unsigned long v);
void vs_print(const char* s, unsigned long v);
[[noreturn]] void vs_done();
extern int vs_exact_ints;                            // stream integers digit by digit, even symbolic ones
void harness();
}
// a float in [lo,hi] (excludes NaN and infinities)
inline float vs_float_in(float lo, float hi, const char* name) { float f = vs_f32(name); vs_assume(f >= lo && f <= hi); return f; }
inline double vs_double_in(double lo, double hi, const char* name) { double f = vs_f64(name); vs_assume(f >= lo && f <= hi); return f; }
#endif
