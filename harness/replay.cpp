// Native replay runtime: feeds a counterexample to the harness, which is
// linked with the real code, compiled by a real compiler with sanitizers.
#include "vsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
struct In { std::string name; std::vector<unsigned char> b; };
static std::vector<In> ins; static size_t pos = 0;
static void inconclusive(const char* why) { printf("REPLAY-INCONCLUSIVE %s\n", why); fflush(stdout); _Exit(3); }
static void get(void* p, size_t n, const char* name) {
    memset(p, 0, n);
    if(pos >= ins.size()) { pos++; return; }      // input created after the violation point: zero
    std::string nm(name); for(char& c : nm) if(c == 32 || c == 9) c = 95;
    if(ins[pos].name != nm || ins[pos].b.size() != n) { fprintf(stderr, "want %s/%zu have %s/%zu\n", name, n, ins[pos].name.c_str(), ins[pos].b.size()); inconclusive("input mismatch"); }
    memcpy(p, ins[pos].b.data(), n); pos++;
}
extern "C" {
int vs_exact_ints = 0;
#define G(T, N) T vs_##N(const char* name) { T v; get(&v, sizeof v, name); return v; }
G(uint8_t, u8) G(uint16_t, u16) G(uint32_t, u32) G(uint64_t, u64) G(int32_t, i32) G(int64_t, i64) G(float, f32) G(double, f64)
bool vs_bool(const char* name) { uint8_t v; get(&v, 1, name); return v & 1; }
void vs_sym(void* p, size_t n, const char* name) { for(size_t i = 0; i < n; ++i) get((char*)p + i, 1, name); }
int vs_range(int lo, int hi, const char* name) { int v; get(&v, 4, name); if(pos > ins.size()) v = lo; if(v < lo || v > hi) inconclusive("range"); return v; }
int vs_choose(int lo, int hi, const char* name) { return vs_range(lo, hi, name); }
void vs_assume(bool c) { if(!c) inconclusive("assumption"); }
void vs_assert(bool c, const char* msg) { if(!c) { printf("REPLAY-VIOLATION %s\n", msg); fflush(stdout); _Exit(1); } }
void vs_fail(const char* msg) { vs_assert(false, msg); }
void vs_reach(const char*) {}
void vs_note(const char* s) { printf("note: %s\n", s); }
int vs_case() { const char* e = getenv("VS_CASE"); return e ? atoi(e) : 0; }
int vs_tier() { const char* e = getenv("VS_TIER"); return e ? atoi(e) : 0; }
bool vs_symbolic() { return false; }
bool vs_realmode() { return false; }
bool vs_issym(unsigned long) { return false; }
bool vs_issymf(double) { return false; }
unsigned long vs_concrete(unsigned long v) { return v; }
void vs_print(const char* s, unsigned long v) { printf("[print] %s %lu\n", s, v); }
[[noreturn]] void vs_done() { printf("REPLAY-END\n"); fflush(stdout); _Exit(0); }
}
int main(int argc, char** argv) {
    if(argc > 1) {
        FILE* f = fopen(argv[1], "r"); if(!f) return 4;
        char line[4096];
        while(fgets(line, sizeof line, f)) {
            char nm[1024], hex[2048]; int n;
            if(line[0] == '#') continue;
            if(sscanf(line, "%1023s %d %2047s", nm, &n, hex) != 3) continue;
            In i; i.name = nm; for(int k = 0; k < n; ++k) { unsigned x; sscanf(hex + 2 * k, "%2x", &x); i.b.push_back((unsigned char)x); }
            ins.push_back(i);
        }
        fclose(f);
    }
    harness();
    printf("REPLAY-END\n"); fflush(stdout);
    _Exit(0);
}
