// vsym: a bounded symbolic executor for LLVM-18 bitcode, deciding with Z3.
//
// Every scalar is either a concrete bit pattern or a Z3 term (BitVec, Bool,
// FloatingPoint or, in --fp=real mode, Real).  Memory is a set of disjoint
// byte-addressed objects.  Symbolic branches fork; every feasible path within
// the bounds is executed, and every vs_assert / memory access / trap on it is
// decided by a solver query over *all* values of the symbolic inputs.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <chrono>
#include <cmath>
#include <cfenv>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <csignal>
#include <unistd.h>

using namespace llvm;
typedef uint64_t u64;
static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

//------------------------------------------------------------------ options
static bool optReal = false;
static double optTime = 600;
static u64 optMaxInst = 20000000;     // per path
static unsigned optQueryMs = 60000;
static unsigned optMaxEnum = 300;
static unsigned optMaxViol = 1;
static bool optLimitIsViolation = false;
static bool optMerge = false;
static unsigned optFast = 60;         // ms given to the incremental core before the tactic solver
static std::string optOut;
static std::string optEntry = "harness";
static int optCase = 0;
static int optTier = 0;
static bool optVerbose = false;
static const char* optDump = nullptr;

//------------------------------------------------------------------ Z3 layer
static Z3_context Z;
[[noreturn]] static void fatal(const std::string& m);
static bool g_z3err = false;
static void z3err(Z3_context c, Z3_error_code e) {
    g_z3err = true;
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}
struct E {
    Z3_ast a = nullptr;
    E() {}
    E(Z3_ast x) : a(x) { if(a) Z3_inc_ref(Z, a); else { if(getenv("VSYM_ABORT")) abort(); fatal("null z3 ast"); } }
    E(const E& o) : a(o.a) { if(a) Z3_inc_ref(Z, a); }
    E(E&& o) noexcept : a(o.a) { o.a = nullptr; }
    E& operator=(const E& o) { if(o.a) Z3_inc_ref(Z, o.a); if(a) Z3_dec_ref(Z, a); a = o.a; return *this; }
    E& operator=(E&& o) noexcept { std::swap(a, o.a); return *this; }
    ~E() { if(a) Z3_dec_ref(Z, a); }
    explicit operator bool() const { return a; }
    unsigned id() const { return Z3_get_ast_id(Z, a); }
    Z3_sort sort() const { return Z3_get_sort(Z, a); }
    Z3_sort_kind kind() const { return Z3_get_sort_kind(Z, Z3_get_sort(Z, a)); }
};
static E bvc(u64 v, unsigned bits) {
    if(bits < 64) v &= (1ull << bits) - 1;
    return E(Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, bits)));
}
static E mkBool(bool b) { return E(b ? Z3_mk_true(Z) : Z3_mk_false(Z)); }
static E mkNot(const E& x) {
    if(Z3_get_ast_kind(Z, x.a) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(Z, x.a);
        Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap));
        if(k == Z3_OP_NOT) return E(Z3_get_app_arg(Z, ap, 0));
        if(k == Z3_OP_TRUE) return mkBool(false);
        if(k == Z3_OP_FALSE) return mkBool(true);
    }
    return E(Z3_mk_not(Z, x.a));
}
static E mkAnd(const E& a, const E& b) { Z3_ast v[2] = {a.a, b.a}; return E(Z3_mk_and(Z, 2, v)); }
static E mkOr(const E& a, const E& b) { Z3_ast v[2] = {a.a, b.a}; return E(Z3_mk_or(Z, 2, v)); }
static E mkIte(const E& c, const E& a, const E& b) { return a.a == b.a ? a : E(Z3_mk_ite(Z, c.a, a.a, b.a)); }
static E mkEq(const E& a, const E& b) { return E(Z3_mk_eq(Z, a.a, b.a)); }
static Z3_sort fpSort(bool dbl) {
    static Z3_sort c[2];
    if(!c[dbl]) { c[dbl] = dbl ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, c[dbl])); }
    return c[dbl];
}
static E simp(const E& x) { return E(Z3_simplify(Z, x.a)); }
static Z3_decl_kind declKind(const E& x) {
    if(Z3_get_ast_kind(Z, x.a) == Z3_NUMERAL_AST) return Z3_OP_BNUM;
    if(Z3_get_ast_kind(Z, x.a) != Z3_APP_AST) return Z3_OP_UNINTERPRETED;
    return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, x.a)));
}
static E arg(const E& x, unsigned i) { return E(Z3_get_app_arg(Z, Z3_to_app(Z, x.a), i)); }
static bool isNum(const E& x, u64& v) {
    return Z3_get_ast_kind(Z, x.a) == Z3_NUMERAL_AST && x.kind() == Z3_BV_SORT && Z3_get_numeral_uint64(Z, x.a, &v);
}
static unsigned bvSize(const E& x) { return Z3_get_bv_sort_size(Z, x.sort()); }
static E mkExtract(unsigned hi, unsigned lo, const E& x) {
    unsigned w = bvSize(x);
    if(lo == 0 && hi == w - 1) return x;
    Z3_decl_kind k = declKind(x);
    if(k == Z3_OP_CONCAT) {
        unsigned n = Z3_get_app_num_args(Z, Z3_to_app(Z, x.a));
        unsigned pos = w;
        for(unsigned i = 0; i < n; ++i) {
            E s = arg(x, i); unsigned sw = bvSize(s); pos -= sw;
            if(lo >= pos && hi < pos + sw) return mkExtract(hi - pos, lo - pos, s);
        }
    } else if(k == Z3_OP_ZERO_EXT || k == Z3_OP_SIGN_EXT) {
        E s = arg(x, 0); unsigned sw = bvSize(s);
        if(hi < sw) return mkExtract(hi, lo, s);
        if(k == Z3_OP_ZERO_EXT && lo >= sw) return bvc(0, hi - lo + 1);
    } else if(k == Z3_OP_EXTRACT) {
        unsigned l0 = Z3_get_decl_int_parameter(Z, Z3_get_app_decl(Z, Z3_to_app(Z, x.a)), 1);
        return mkExtract(hi + l0, lo + l0, arg(x, 0));
    } else if(k == Z3_OP_ITE) {
        u64 v;
        E t = arg(x, 1), f = arg(x, 2);
        if(isNum(t, v) && isNum(f, v)) return mkIte(arg(x, 0), mkExtract(hi, lo, t), mkExtract(hi, lo, f));
    } else { u64 v; if(w <= 64 && isNum(x, v)) return bvc(v >> lo, hi - lo + 1); }
    return E(Z3_mk_extract(Z, hi, lo, x.a));
}

//------------------------------------------------------------------ values
struct Value_;
typedef std::shared_ptr<std::vector<Value_>> AggP;
struct RawB { uint8_t c; uint8_t idx, n; E e; };   // one memory byte: concrete, or byte idx of the n-byte term e
struct Value_ {
    u64 c = 0;
    E e;              // set iff symbolic
    AggP agg;         // set for aggregates / vectors
    std::shared_ptr<std::vector<RawB>> raw;   // opaque bytes holding real-mode terms
    bool sym() const { return (bool)e; }
};
typedef Value_ V;
static V cv(u64 c) { V v; v.c = c; return v; }
static V sv(const E& e) { V v; v.e = e; return v; }

static u64 maskTo(u64 v, unsigned bits) { return bits >= 64 ? v : (v & ((1ull << bits) - 1)); }
static int64_t sext(u64 v, unsigned bits) {
    if(bits >= 64) return (int64_t)v;
    u64 m = 1ull << (bits - 1);
    v = maskTo(v, bits);
    return (int64_t)((v ^ m) - m);
}

static E toBV(const V& v, unsigned bits) {
    if(v.raw) fatal("packed real-mode bytes used as an integer");
    if(!v.e) return bvc(v.c, bits);
    switch(v.e.kind()) {
        case Z3_BV_SORT: return v.e;
        case Z3_BOOL_SORT: {
            E r(Z3_mk_ite(Z, v.e.a, bvc(1, bits).a, bvc(0, bits).a));
            return r;
        }
        case Z3_FLOATING_POINT_SORT: {
            if(declKind(v.e) == Z3_OP_FPA_TO_FP && Z3_get_app_num_args(Z, Z3_to_app(Z, v.e.a)) == 1) {
                E s = arg(v.e, 0);
                if(s.kind() == Z3_BV_SORT) return s;
            }
            return E(Z3_mk_fpa_to_ieee_bv(Z, v.e.a));
        }
        default: fatal("cannot view this term as bits (real-mode value used as bits)");
    }
}
static E toBool(const V& v) {
    if(!v.e) return mkBool(v.c & 1);
    if(v.e.kind() == Z3_BOOL_SORT) return v.e;
    if(declKind(v.e) == Z3_OP_ITE) {
        u64 a, b;
        if(isNum(arg(v.e, 1), a) && isNum(arg(v.e, 2), b)) {
            a &= 1; b &= 1;
            if(a == b) return mkBool(a);
            return a ? arg(v.e, 0) : mkNot(arg(v.e, 0));
        }
    }
    E b = mkExtract(0, 0, v.e);
    return mkEq(b, bvc(1, 1));
}
static E realOf(double d) {
    if(std::isnan(d) || std::isinf(d)) fatal("inf/nan constant mixed with real-mode value");
    int ex; double m = std::frexp(d, &ex);
    long long mi = (long long)std::ldexp(m, 53); ex -= 53;
    while(mi && !(mi & 1)) { mi >>= 1; ex++; }
    std::string s = std::to_string(mi);
    auto pow2 = [](int n) { // decimal string of 2^n
        std::string r = "1";
        for(int i = 0; i < n; i++) { int c = 0; for(int j = (int)r.size() - 1; j >= 0; --j) { int t = (r[j]-'0')*2 + c; r[j] = '0' + t % 10; c = t / 10; } if(c) r.insert(r.begin(), '0' + c); }
        return r;
    };
    Z3_sort R = Z3_mk_real_sort(Z);
    if(mi == 0) return E(Z3_mk_numeral(Z, "0", R));
    if(ex < 0) return E(Z3_mk_numeral(Z, (s + "/" + pow2(-ex)).c_str(), R));
    if(ex == 0) return E(Z3_mk_numeral(Z, s.c_str(), R));
    E a(Z3_mk_numeral(Z, s.c_str(), R)), b(Z3_mk_numeral(Z, pow2(ex).c_str(), R));
    Z3_ast ar[2] = {a.a, b.a};
    return simp(E(Z3_mk_mul(Z, 2, ar)));
}
static double bitsToD(u64 c, bool dbl) {
    if(dbl) { double d; memcpy(&d, &c, 8); return d; }
    float f; uint32_t i = (uint32_t)c; memcpy(&f, &i, 4); return f;
}
static u64 dToBits(double d, bool dbl) {
    if(dbl) { u64 c; memcpy(&c, &d, 8); return c; }
    float f = (float)d; uint32_t i; memcpy(&i, &f, 4); return i;
}
static E toFP(const V& v, bool dbl) {
    if(!v.e) return E(Z3_mk_fpa_to_fp_bv(Z, bvc(v.c, dbl ? 64 : 32).a, fpSort(dbl)));
    if(v.e.kind() == Z3_FLOATING_POINT_SORT) return v.e;
    if(v.e.kind() == Z3_BV_SORT) {
        if(declKind(v.e) == Z3_OP_FPA_TO_IEEE_BV) return arg(v.e, 0);
        return E(Z3_mk_fpa_to_fp_bv(Z, v.e.a, fpSort(dbl)));
    }
    fatal("cannot view term as FP");
}
static E toReal(const V& v, bool dbl) {
    if(!v.e) return realOf(bitsToD(v.c, dbl));
    if(v.e.kind() == Z3_REAL_SORT) return v.e;
    fatal("cannot view bits as real");
}

//------------------------------------------------------------------ memory
struct MemObj {
    u64 base = 0, size = 0;
    std::string name;
    bool freed = false, ro = false, heap = false, undef = false;
    std::vector<uint8_t> conc;
    struct SB { E e; uint8_t idx; uint8_t n; };       // byte idx of the n-byte term e
    std::unordered_map<uint32_t, SB> symb;            // offset -> symbolic byte
};
typedef std::shared_ptr<MemObj> ObjP;

struct KFunc;
struct Op { int slot; V k; };
struct KInst {
    Instruction* I;
    int dest = -1;
    std::vector<Op> ops;
    unsigned bb = 0;
};
struct KFunc {
    Function* F;
    std::vector<KInst> insts;
    std::unordered_map<const BasicBlock*, unsigned> bbStart;
    unsigned nslots = 0;
    std::vector<unsigned> argSlots;
    std::unordered_map<const Value*, unsigned> slotOf;
    bool prepared = false;
};
struct Frame {
    KFunc* f;
    unsigned pc = 0;
    const BasicBlock* prev = nullptr;
    std::vector<V> regs;
    std::vector<u64> allocas;
    std::vector<V> varargs;
    u64 varArea = 0;
};
struct Exc { u64 obj = 0, tinfo = 0, dtor = 0; int count = 0; bool rethrown = false; u64 adj = 0; };
struct ModelP {
    Z3_model m;
    ModelP(Z3_model x) : m(x) { Z3_model_inc_ref(Z, m); }
    ~ModelP() { Z3_model_dec_ref(Z, m); }
};
struct State {
    std::vector<Frame> st;
    std::map<u64, ObjP> mem;
    std::vector<E> pc;
    std::shared_ptr<ModelP> model;
    std::map<unsigned, u64> conc;       // ast id -> concretised value
    std::vector<E> keep;                // keeps the ast ids above alive
    u64 heapTop = 0x600000000000ull, stackTop = 0x7f0000000000ull;
    u64 ninst = 0;
    unsigned depth = 0;
    std::map<u64, Exc> excs;
    std::vector<u64> caught;            // stack of caught exception objects
    u64 errnoAddr = 0;
    std::vector<std::string> notes;
    std::map<unsigned, unsigned> enumN; // ast id -> values enumerated so far
    std::vector<int> inputs;            // indices in g_inputs, in creation order
    bool dead = false;
    ObjP mru;
};
typedef std::shared_ptr<State> StateP;

//------------------------------------------------------------------ globals
static Module* M;
static const DataLayout* DL;
static LLVMContext* CTX;
static std::unordered_map<const Function*, std::unique_ptr<KFunc>> kfuncs;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, Function*> faddr;
static std::map<u64, ObjP> roGlobals;
static std::vector<StateP> work;
static double t0;
struct Stats { u64 paths = 0, pathsAssumed = 0, forks = 0, queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, asserts = 0, assertQueries = 0, insts = 0, merges = 0, ext = 0; double solver = 0; } S;
static std::map<std::string, u64> reachCount;
static std::map<std::string, u64> assertCount;
static std::set<std::string> usedFuncs;
static std::set<std::string> assumeNotes;
struct Viol { std::string kind, msg, where; std::vector<std::tuple<std::string, unsigned, std::string>> inputs; std::vector<std::string> notes; };
static std::vector<Viol> viols;
static std::string incomplete;
static std::string sampleModel;
struct State; static State* curSt = 0; static std::string whereAmI(State& s);

struct InputVar { std::string name; unsigned bits; E e; bool real; bool flt; };
static std::vector<InputVar> g_inputs;
static std::map<std::string, int> g_inputIdx;

static void finish(int code);
[[noreturn]] static void fatal(const std::string& m) {
    fprintf(stderr, "vsym: fatal: %s at %s\n", m.c_str(), curSt ? whereAmI(*curSt).c_str() : "");
    if(incomplete.empty()) incomplete = "fatal: " + m;
    finish(2);
    exit(2);
}

//------------------------------------------------------------------ var sets, slicing
static std::unordered_map<unsigned, std::shared_ptr<std::vector<unsigned>>> varCache;
static std::vector<E> varCacheKeep;
struct Feat { bool fp = false, real = false, uf = false, nonlin = false; };
static std::unordered_map<unsigned, Feat> featCache;
static std::shared_ptr<std::vector<unsigned>> varsOf(const E& x, Feat* ft = nullptr) {
    auto it = varCache.find(x.id());
    if(it != varCache.end()) { if(ft) *ft = featCache[x.id()]; return it->second; }
    std::set<unsigned> out, seen;
    Feat f;
    std::vector<Z3_ast> stk{x.a};
    while(!stk.empty()) {
        Z3_ast a = stk.back(); stk.pop_back();
        if(!seen.insert(Z3_get_ast_id(Z, a)).second) continue;
        Z3_sort_kind sk = Z3_get_sort_kind(Z, Z3_get_sort(Z, a));
        if(sk == Z3_FLOATING_POINT_SORT || sk == Z3_ROUNDING_MODE_SORT) f.fp = true;
        if(sk == Z3_REAL_SORT || sk == Z3_INT_SORT) f.real = true;
        if(Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
        Z3_app ap = Z3_to_app(Z, a);
        unsigned n = Z3_get_app_num_args(Z, ap);
        Z3_decl_kind dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap));
        if(dk == Z3_OP_UNINTERPRETED) {
            if(n == 0) out.insert(Z3_get_ast_id(Z, a));
            else { f.uf = true; out.insert(0xffffff00u); }
        }
        for(unsigned i = 0; i < n; ++i) stk.push_back(Z3_get_app_arg(Z, ap, i));
    }
    auto r = std::make_shared<std::vector<unsigned>>(out.begin(), out.end());
    varCache[x.id()] = r; featCache[x.id()] = f; varCacheKeep.push_back(x);
    if(ft) *ft = f;
    return r;
}

enum Res { SAT, UNSAT, UNKNOWN };
struct QRes { Res r; std::shared_ptr<ModelP> m; };
static std::map<std::vector<unsigned>, QRes> qcache;
static std::vector<E> qkeep;

static Z3_solver mkSolver(const Feat& f) {
    Z3_solver s;
    if(f.real || f.uf) s = Z3_mk_solver(Z);
    else {
        const char* tn = f.fp ? "qffpbv" : "qfbv";
        Z3_tactic t = Z3_mk_tactic(Z, tn);
        Z3_tactic_inc_ref(Z, t);
        s = Z3_mk_solver_from_tactic(Z, t);
        Z3_solver_inc_ref(Z, s);
        Z3_tactic_dec_ref(Z, t);
        return s;
    }
    Z3_solver_inc_ref(Z, s);
    return s;
}
// last resort: hand the query to an external solver; only unsat is used.
static Res externalCheck(const std::vector<E>& as, unsigned ms) {
    std::vector<Z3_ast> v; for(auto& e : as) v.push_back(e.a);
    char path[] = "/tmp/vsymq_XXXXXX.smt2";
    int fd = mkstemps(path, 5);
    if(fd < 0) return UNKNOWN;
    std::string txt = Z3_benchmark_to_smtlib_string(Z, "q", "", "", "", v.size() - 1, v.data(), v.back());
    size_t p = 0;
    while(p < txt.size()) { ssize_t w = write(fd, txt.data() + p, txt.size() - p); if(w <= 0) break; p += w; }
    close(fd);
    char cmd[512];
    snprintf(cmd, sizeof cmd, "timeout %u /usr/bin/cvc5 --lang=smt2 --fp-exp %s 2>&1", ms / 1000 + 1, path);
    FILE* fp = popen(cmd, "r");
    char buf[256] = {0}; Res r = UNKNOWN; bool err = false;
    if(fp) {
        while(fgets(buf, sizeof buf, fp)) {
            if(strstr(buf, "error")) err = true;
            if(!strncmp(buf, "unsat", 5)) r = UNSAT;
        }
        pclose(fp);
    }
    unlink(path);
    S.ext++;
    return err ? UNKNOWN : r;
}

static QRes solveQuery(const std::vector<E>& as) {
    std::vector<unsigned> key;
    for(auto& a : as) key.push_back(a.id());
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = qcache.find(key);
    if(it != qcache.end()) { S.cacheHits++; return it->second; }
    Feat f;
    for(auto& a : as) { Feat g; varsOf(a, &g); f.fp |= g.fp; f.real |= g.real; f.uf |= g.uf; }
    if(!f.fp && !f.real && !f.uf && optFast) {
        static Z3_solver fs = nullptr;
        static unsigned used = 0;
        if(fs && ++used > 2000) { Z3_solver_dec_ref(Z, fs); fs = nullptr; used = 0; }
        if(!fs) {
            fs = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, fs);
            Z3_params ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps);
            Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), optFast);
            Z3_solver_set_params(Z, fs, ps); Z3_params_dec_ref(Z, ps);
        }
        double b = now();
        Z3_solver_push(Z, fs);
        for(auto& a : as) Z3_solver_assert(Z, fs, a.a);
        Z3_lbool r = Z3_solver_check(Z, fs);
        QRes q; q.r = UNKNOWN;
        if(r == Z3_L_TRUE) { q.r = SAT; q.m = std::make_shared<ModelP>(Z3_solver_get_model(Z, fs)); S.sat++; S.queries++; }
        else if(r == Z3_L_FALSE) { q.r = UNSAT; S.unsat++; S.queries++; }
        Z3_solver_pop(Z, fs, 1);
        S.solver += now() - b;
        static unsigned hit = 0, miss = 0; (r != Z3_L_UNDEF ? hit : miss)++; if(miss > 10 && miss > hit / 50) optFast = 0;
        if(r != Z3_L_UNDEF) { for(auto& a : as) qkeep.push_back(a); qcache[key] = q; return q; }
        Z3_solver_dec_ref(Z, fs); fs = nullptr;
    }
    Z3_solver s = mkSolver(f);
    Z3_params ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps);
    double left = optTime - (now() - t0);
    unsigned ms = optQueryMs;
    if(left * 1000 < ms) ms = left > 1 ? (unsigned)(left * 1000) : 1000;
    Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), ms);
    Z3_solver_set_params(Z, s, ps);
    Z3_params_dec_ref(Z, ps);
    for(auto& a : as) Z3_solver_assert(Z, s, a.a);
    double b = now();
    Z3_lbool r = Z3_solver_check(Z, s);
    QRes q; q.r = UNKNOWN;
    S.queries++;
    if(r == Z3_L_TRUE) { q.r = SAT; q.m = std::make_shared<ModelP>(Z3_solver_get_model(Z, s)); S.sat++; }
    else if(r == Z3_L_FALSE) { q.r = UNSAT; S.unsat++; }
    else {
        Res x = UNKNOWN;
        if(!f.uf && now() - t0 < optTime) x = externalCheck(as, std::min<unsigned>(ms, (unsigned)std::max(1000.0, (optTime - (now() - t0)) * 1000)));
        if(x == UNSAT) { q.r = UNSAT; S.unsat++; } else S.unknown++;
    }
    double dt = now() - b;
    S.solver += dt;
    if(optVerbose && dt > 2) fprintf(stderr, "slow query %.1fs res=%d n=%zu fp=%d real=%d\n", dt, q.r, as.size(), f.fp, f.real);
    if(optDump && dt > 5) {
        std::vector<Z3_ast> v; for(auto& e : as) v.push_back(e.a);
        static int n = 0; std::string fn = std::string(optDump) + "/q" + std::to_string(n++) + ".smt2";
        FILE* fo = fopen(fn.c_str(), "w");
        if(fo) { fputs(Z3_benchmark_to_smtlib_string(Z, "q", "", "", "", v.size() - 1, v.data(), v.back()), fo); fclose(fo); }
    }
    Z3_solver_dec_ref(Z, s);
    if(g_z3err) fatal("z3 reported an error during a query");
    for(auto& a : as) qkeep.push_back(a);
    if(q.r != UNKNOWN) qcache[key] = q;
    return q;
}


// Overlay the (sliced) model n on the full model o of the path condition.
static std::shared_ptr<ModelP> joinModels(const std::shared_ptr<ModelP>& o, const std::shared_ptr<ModelP>& n) {
    if(!o || o == n) return n;
    Z3_model r = Z3_mk_model(Z);
    auto res = std::make_shared<ModelP>(r);
    std::set<Z3_func_decl> done;
    for(unsigned i = 0, e = Z3_model_get_num_consts(Z, n->m); i < e; ++i) {
        Z3_func_decl d = Z3_model_get_const_decl(Z, n->m, i);
        Z3_ast v = Z3_model_get_const_interp(Z, n->m, d);
        if(v) { Z3_add_const_interp(Z, r, d, v); done.insert(d); }
    }
    for(unsigned i = 0, e = Z3_model_get_num_consts(Z, o->m); i < e; ++i) {
        Z3_func_decl d = Z3_model_get_const_decl(Z, o->m, i);
        if(done.count(d)) continue;
        Z3_ast v = Z3_model_get_const_interp(Z, o->m, d);
        if(v) Z3_add_const_interp(Z, r, d, v);
    }
    return res;
}
static bool evalTrue(const std::shared_ptr<ModelP>& m, const E& c) {
    if(!m) return false;
    Z3_ast out;
    if(!Z3_model_eval(Z, m->m, c.a, true, &out)) { g_z3err = false; return false; }
    E o(out);
    return Z3_get_bool_value(Z, o.a) == Z3_L_TRUE;
}
static std::string whereAmI(State& s);
// Is cond satisfiable together with the path condition?  On SAT the model
// returned satisfies the whole path condition and cond.
static QRes query(State& s, const E& cond) {
    E c = simp(cond);
    Z3_lbool bv = Z3_get_bool_value(Z, c.a);
    QRes q;
    if(bv == Z3_L_FALSE) { q.r = UNSAT; return q; }
    if(bv == Z3_L_TRUE) { q.r = SAT; q.m = s.model; return q; }
    if(evalTrue(s.model, c)) { S.modelHits++; q.r = SAT; q.m = s.model; return q; }
    { unsigned nid = simp(mkNot(c)).id(); for(auto& p : s.pc) if(p.id() == nid) { q.r = UNSAT; return q; } }
    std::set<unsigned> vs;
    Feat f;
    { auto v = varsOf(c, &f); vs.insert(v->begin(), v->end()); }
    bool uf = f.uf;
    for(auto& p : s.pc) { Feat g; varsOf(p, &g); uf |= g.uf; }
    std::vector<E> as{c};
    if(uf || !s.model) {
        for(auto& p : s.pc) as.push_back(p);
        return solveQuery(as);
    }
    std::vector<bool> used(s.pc.size());
    bool ch = true;
    while(ch) {
        ch = false;
        for(size_t i = 0; i < s.pc.size(); ++i) {
            if(used[i]) continue;
            auto v = varsOf(s.pc[i]);
            bool hit = false;
            for(unsigned x : *v) if(vs.count(x)) { hit = true; break; }
            if(hit) { used[i] = true; as.push_back(s.pc[i]); vs.insert(v->begin(), v->end()); ch = true; }
        }
    }
    double tq = now();
    q = solveQuery(as);
    if(optVerbose && now() - tq > 0.03) fprintf(stderr, "q %.3fs n=%zu r=%d %.300s\n", now() - tq, as.size(), q.r, whereAmI(s).c_str());
    if(q.r == SAT) q.m = joinModels(s.model, q.m);
    return q;
}
static unsigned long g_restrict = 0;      // path conditions narrowed other than by an exhaustive fork
// Conjoin cond, which the given model is known to satisfy with the path condition.
static void assumeWith(State& s, const E& cond, const std::shared_ptr<ModelP>& m) {
    E c = simp(cond);
    if(Z3_get_bool_value(Z, c.a) != Z3_L_TRUE) s.pc.push_back(c);
    s.model = m;
}

#include "exec.inc"
