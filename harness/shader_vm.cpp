// Shaders compiled by the current shader compiler, run by the real virtual machine over a grid of
// points with arbitrary values, against the meaning of the same text, as C++, at each point alone.
#include "vsym.h"
#include "near.h"
#include <aqsis/shadervm/ishader.h>
#include <aqsis/shadervm/ishaderdata.h>
#include <aqsis/shadervm/ishaderexecenv.h>
#include "shadervm.h"
#include "shaderexecenv/shaderexecenv.h"
#include "slx.h"
#include <sstream>
#include <cmath>
namespace sl {
struct color { double x, y, z; color() : x(0), y(0), z(0) {} color(double a) : x(a), y(a), z(a) {} color(double a, double b, double c) : x(a), y(b), z(c) {} };
#define OP(o) static inline color operator o(const color& a, const color& b) { return color(a.x o b.x, a.y o b.y, a.z o b.z); } static inline color& operator o##=(color& a, const color& b) { a = a o b; return a; }
OP(+) OP(-) OP(*) OP(/)
static inline color operator-(const color& a) { return color(-a.x, -a.y, -a.z); }
static inline bool operator==(const color& a, const color& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static inline bool operator!=(const color& a, const color& b) { return !(a == b); }
typedef color vector; typedef color point; typedef color normal;
// an array index is a whole number
struct Idx { int i; Idx(double d) : i((int)d) {} };
template<class T> struct Arr { T v[8]; int n; Arr(int k) : n(k) {} T& operator[](double d) { return v[(int)d]; } };
struct Pt { double u, v, s, t; color Cs, Os, P, N; double o0, o1, o2, o3, o4, o5; color c0, c1, v0, v1; Pt() : o0(0), o1(0), o2(0), o3(0), o4(0), o5(0) {} };
#include "shader_fn.h"
#include "sl_all.h"
}
using namespace Aqsis; using sl::Pt; using sl::color;
#define PROGS X(0, if) X(1, ifuniform) X(2, while) X(3, for) X(4, break) X(5, nestbreak) X(6, ternary) X(7, arith) X(8, compare) X(9, array) X(10, cast) X(11, func) X(12, fnmath) X(13, fnstep) X(14, fnvec) X(15, fnlength) X(16, fnreflect) X(17, fnspline) X(18, fnround) X(19, funcalias) X(20, splineend) X(21, fnsplinec) X(22, fnsplineb) X(23, fnmatrix) X(24, fnsplineh) X(25, fnsplinea) X(26, mix) X(27, mixcmp) X(28, expr)
static std::string text(int c) { switch(c) {
#define X(i, n) case i: return std::string(SLX_##n, sizeof SLX_##n - 1);
PROGS
#undef X
} return ""; }
static void meaning(int c, Pt& p) { switch(c) {
#define X(i, n) case i: sl::fn_##n::run(p); break;
PROGS
#undef X
} }
static boost::shared_ptr<IqShader> S; static CqShaderExecEnv* env; static int NP = 2;
static void load(const std::string& slx, int uRes, int vRes) {
    vs_assert(slx.size() > 1 && slx[0] > 32, "the shader compiles"); std::istringstream in(slx); S = createShaderVM(0, in, ""); NP = (uRes + 1) * (vRes + 1);
    S->PrepareShaderForUse(); env = new CqShaderExecEnv(0); env->Initialise(uRes, vRes, uRes * vRes, NP, true, IqConstAttributesPtr(), IqConstTransformPtr(), S.get(), S->Uses()); S->Initialise(uRes, vRes, NP, env);
}
static double num(const char* n) { return vs_case() == 7 ? rin(-4, 4, n) : rin(0, 1, n); }
static color three(const char* n) { double a = num(n), b = num(n), c = num(n); return color(a, b, c); }
static bool same(const CqColor& a, const color& b) { return nearTo(a.r(), b.x) && nearTo(a.g(), b.y) && nearTo(a.b(), b.z); }
static bool same(const CqVector3D& a, const color& b) { return nearTo(a.x(), b.x) && nearTo(a.y(), b.y) && nearTo(a.z(), b.z); }
static CqVector3D vec(const color& c) { return CqVector3D(c.x, c.y, c.z); } static CqColor col(const color& c) { return CqColor(c.x, c.y, c.z); }
// derivatives: on a grid of equal steps they are exact for whatever is affine in u and v
static void derivs() {
    bool uni = vs_case() == 31; bool big = vs_case() == 32; load(uni ? SLX_derivuni : SLX_deriv, 1 + big + vs_tier(), 1 + big); int nu = 2 + big + vs_tier();
    double du = rin(0.0625, 1, "du"), dv = rin(0.0625, 1, "dv"), u0 = rin(0, 1, "u0"), v0 = rin(0, 1, "v0"), s = rin(0, 1, "s"); color A = three("dPdu"), B = three("dPdv"), C = three("P0");
    for(int i = 0; i < NP; ++i) {
        double u = u0 + du * (i % nu), v = v0 + dv * (i / nu);
        if(env->u()) env->u()->SetFloat(u, i); if(env->v()) env->v()->SetFloat(v, i); if(env->s()) env->s()->SetFloat(s, i); if(env->du()) env->du()->SetFloat(du, i); if(env->dv()) env->dv()->SetFloat(dv, i);
        if(env->P()) env->P()->SetPoint(vec(A * color(u) + B * color(v) + C), i);
    }
    S->Evaluate(env);
    for(int i = 0; i < NP; ++i) {
        auto f = [&](const char* n) { float r = 0; S->FindArgument(n)->GetFloat(r, i); return r; };
        if(uni) { vs_assert(f("o0") == 1 && f("o1") == 0, "a uniform value has derivative zero"); continue; }
#ifdef VSDEBUG
        printf("%d: %g %g %g %g\n", i, f("o0"), f("o1"), f("o2"), f("o3"));
#endif
        vs_assert(nearTo(f("o0"), 2), "Du is the rate of change along u"); vs_assert(nearTo(f("o1"), -3), "Dv is the rate of change along v"); vs_assert(nearTo(f("o3"), 1), "Dv(v) is 1 and Du(v) 0");
        double xu = du, xv = -0.125 * dv, want = du >= 0.125 * dv ? 4 * du / xu : 2 * dv / xv; vs_assert(nearTo(f("o2"), want), "Deriv is the ratio of the changes along the direction the denominator changes most");
        CqVector3D v; S->FindArgument("v0")->GetVector(v, i); vs_assert(same(v, A), "Du of a point"); S->FindArgument("v1")->GetVector(v, i); vs_assert(same(v, B), "Dv of a point");
        CqColor c; S->FindArgument("c0")->GetColor(c, i); vs_assert(same(c, color(1, 4, 2)), "derivatives of a colour");
    }
    vs_reach("end");
}
void harness() {
    if(vs_case() >= 30) { derivs(); return; }
    load(text(vs_case()), 1, vs_tier()); std::vector<Pt> pts(NP);
    for(int i = 0; i < NP; ++i) {
        Pt& p = pts[i]; if(env->u()) env->u()->SetFloat(p.u = num("u"), i); if(env->v()) env->v()->SetFloat(p.v = num("v"), i); if(env->s()) env->s()->SetFloat(p.s = num("s"), i); if(env->t()) env->t()->SetFloat(p.t = num("t"), i);
        if(env->Cs()) env->Cs()->SetColor(col(p.Cs = three("Cs")), i); if(env->Os()) env->Os()->SetColor(col(p.Os = three("Os")), i); if(env->P()) env->P()->SetPoint(vec(p.P = three("P")), i); if(env->N()) env->N()->SetNormal(vec(p.N = three("N")), i);
    }
    S->Evaluate(env);
    for(int i = 0; i < NP; ++i) {
        Pt& p = pts[i]; meaning(vs_case(), p); const double o[] = {p.o0, p.o1, p.o2, p.o3, p.o4, p.o5}; char n[] = "o0";
#ifdef VSDEBUG
        for(int k = 0; k < 6; ++k) { n[1] = '0' + k; float f = 0; S->FindArgument(n)->GetFloat(f, i); printf("%d %s got %g want %g\n", i, n, f, o[k]); }
#endif
        for(int k = 0; k < 6; ++k) { n[1] = '0' + k; float f = 0; S->FindArgument(n)->GetFloat(f, i); vs_assert(nearTo(f, o[k]), "floats come out as the source says"); }
#ifdef VSDEBUG
        { CqVector3D v; S->FindArgument("v0")->GetVector(v, i); printf("v0 %g %g %g want %g %g %g\n", v.x(), v.y(), v.z(), p.v0.x, p.v0.y, p.v0.z); S->FindArgument("v1")->GetVector(v, i); printf("v1 %g %g %g want %g %g %g\n", v.x(), v.y(), v.z(), p.v1.x, p.v1.y, p.v1.z); }
#endif
        CqColor c; S->FindArgument("c0")->GetColor(c, i); vs_assert(same(c, p.c0), "colours come out as the source says"); S->FindArgument("c1")->GetColor(c, i); vs_assert(same(c, p.c1), "colours come out as the source says");
        CqVector3D v; S->FindArgument("v0")->GetVector(v, i); vs_assert(same(v, p.v0), "vectors come out as the source says"); S->FindArgument("v1")->GetVector(v, i); vs_assert(same(v, p.v1), "vectors come out as the source says");
    }
    vs_reach("end");
}
