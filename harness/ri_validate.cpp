// C09: the validating filter passes a call on exactly when the interface's rules allow it.
#include "ri_record.h"
#include <aqsis/riutil/ricxxutil.h>
#include <aqsis/riutil/ribwriter.h>
#include <aqsis/util/exception.h>
#include <cfloat>
using namespace Aqsis;
enum { S_BeginEnd = 1, S_Frame = 2, S_World = 4, S_Attribute = 8, S_Transform = 16, S_Solid = 32, S_Object = 64, S_Motion = 128, S_Resource = 256, S_Archive = 512 };
static int rsize(const Ri::TokenArray& a) { return (int)a.size(); }
static int rsize(const Ri::IntArray& a) { return (int)a.size(); }
static int rsize(const Ri::FloatArray& a) { return (int)a.size(); }
static int rsum(const Ri::IntArray& a, int s = 0, int st = 1) { int t = 0; for(size_t i = s; i < a.size(); i += st) t += a[i]; return t; }
static int rmax(const Ri::IntArray& a) { if(a.size() == 0) return 0; int m = a[0]; for(size_t i = 1; i < a.size(); ++i) m = a[i] > m ? a[i] : m; return m; }
static int rcountP(const Ri::ParamList& p) { for(size_t i = 0; i < p.size(); ++i) { if(!strcmp(p[i].name(), "P")) return (int)p[i].size() / 3; if(!strcmp(p[i].name(), "Pw")) return (int)p[i].size() / 4; } return 0; }
struct Counts { int uniform, varying, vertex, facevarying, facevertex; Counts() : uniform(1), varying(1), vertex(1), facevarying(1), facevertex(1) {} void unknown() { uniform = varying = vertex = facevarying = facevertex = -1; } };
struct RulesBase {
    bool ok, relaxed; std::vector<int> st; struct At { int us, vs; }; std::vector<At> at;
    RulesBase() : ok(true), relaxed(false) { st.push_back(S_BeginEnd); At a = {3, 3}; at.push_back(a); }
    void relax() { relaxed = true; st[0] = ~0; }
    void scope(int m) { if(!(st.back() & m)) ok = false; }
    void need(bool b) { ok = ok & b; }
    void len(int want, size_t have) { need((int)have >= want); }
    void params(const Ri::ParamList& p, const Counts& c, bool attr = false) {
        if(attr && st.back() == S_Archive) return;
        for(size_t i = 0; i < p.size(); ++i) {
            const Ri::TypeSpec& s = p[i].spec(); int comp = 1, n = 1;
            switch(s.type) { case Ri::TypeSpec::Point: case Ri::TypeSpec::Color: case Ri::TypeSpec::Vector: case Ri::TypeSpec::Normal: comp = 3; break; case Ri::TypeSpec::HPoint: comp = 4; break; case Ri::TypeSpec::Matrix: comp = 16; break; default:; }
            switch(s.iclass) { case Ri::TypeSpec::Uniform: n = c.uniform; break; case Ri::TypeSpec::Varying: n = c.varying; break; case Ri::TypeSpec::Vertex: n = c.vertex; break; case Ri::TypeSpec::FaceVarying: n = c.facevarying; break; case Ri::TypeSpec::FaceVertex: n = c.facevertex; break; default:; }
            need(n < 0 || (int)p[i].size() >= n * comp * s.arraySize);
        }
    }
    void needP(const Ri::ParamList& p) { bool f = false; for(size_t i = 0; i < p.size(); ++i) f |= !strcmp(p[i].name(), "P") || !strcmp(p[i].name(), "Pw"); need(f); }
    void patchMesh(Counts& c, const char* type, int nu, const char* uw, int nv, const char* vw) {
        bool up = !strcmp(uw, "periodic"), vp = !strcmp(vw, "periodic"); c.vertex = nu * nv;
        if(!ok) return;
        if(!strcmp(type, "bilinear")) { c.uniform = (nu - !up) * (nv - !vp); c.varying = nu * nv; }
        else if(relaxed) c.uniform = c.varying = -1;
        else { int a = up ? nu / at.back().us : (nu - 4) / at.back().us + 1, b = vp ? nv / at.back().vs : (nv - 4) / at.back().vs + 1; c.uniform = a * b; c.varying = (a + !up) * (b + !vp); }
    }
    void curves(Counts& c, const char* type, const Ri::IntArray& nv, const char* w) {
        bool p = !strcmp(w, "periodic"); c.uniform = rsize(nv); c.vertex = rsum(nv);
        if(strcmp(type, "cubic")) { c.varying = c.vertex; return; }
        if(relaxed) { c.varying = -1; return; }
        c.varying = 0; for(size_t i = 0; i < nv.size(); ++i) c.varying += p ? nv[i] / at.back().vs : (nv[i] - 4) / at.back().vs + 2;
    }
    void basis(int u, int v) { if(ok) { at.back().us = u; at.back().vs = v; } }
    void begin(int s) { if(!ok) return; if(s != S_Transform) at.push_back(at.back()); if(st.back() == S_Archive && s != S_Archive) return; st.push_back(s); }
    void end(int s) { if(!ok) return; if(s != S_Transform && at.size() > 1) at.pop_back(); if(st.size() == 1) return; if(st.back() == S_Archive && s != S_Archive) return; st.pop_back(); }
};
#include "ri_rules.inc"
static std::ostream* nul; static RibWriterServices* wsv; static ReadSvc* svc; static Ri::Filter* flt; static Recorder* got; static Rules* rules;
static bool relaxedOuter;
static void setup(bool relaxed, Ri::Renderer* next = 0) {
    got = new Recorder(wsv); rules = new Rules; if(relaxed) rules->relax(); relaxedOuter = relaxed;
    int one[1] = {1}; Ri::Param p[1]; p[0] = Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform, Ri::TypeSpec::Integer, 1), "relaxed_outer_scope", Ri::IntArray(one, 1));
    flt = createFilter("validate", relaxed ? Ri::ParamList(p, 1) : Ri::ParamList()); flt->setNextFilter(next ? *next : *got); flt->setRendererServices(*svc); svc->first = flt;
}
// make the call; it must be refused exactly if the rules refuse it, and arrive unchanged otherwise
static bool probe(int id, RiArgs& A, bool deep) {
    Recorder want(wsv); bool threw = false; size_t before = got->w.size(); int nb = got->ncalls;
    if(deep) { Tee t1(want, *rules); Tee t(t1, *flt); try { riCall(id, t, A); } catch(XqValidation&) { threw = true; } }
    else { Tee t(*rules, *flt); try { riCall(id, t, A); } catch(XqValidation&) { threw = true; } }
    vs_assert(threw == !rules->ok, "a call is refused exactly when the interface's rules forbid it");
    vs_assert(got->ncalls == nb + (threw ? 0 : 1), "allowed calls are passed on once and refused ones are not");
    if(deep && !threw) { bool same = got->w.size() - before == want.w.size(); if(same) for(size_t i = 0; i < want.w.size(); ++i) same &= want.w[i] == got->w[before + i]; vs_assert(same, "an allowed call arrives unchanged"); }
    return !threw;
}
static const int SC[] = {RI_FrameBegin, RI_WorldBegin, RI_AttributeBegin, RI_TransformBegin, RI_SolidBegin, RI_ObjectBegin, RI_MotionBegin, RI_ArchiveBegin, RI_FrameEnd, RI_WorldEnd, RI_AttributeEnd, RI_TransformEnd, RI_SolidEnd, RI_ObjectEnd, RI_MotionEnd, RI_ArchiveEnd};
static bool isScope(int id) { for(int i = 0; i < 16; ++i) if(SC[i] == id) return true; return false; }
static void scopes(bool relaxed) {
    setup(relaxed); RiArgs A(wsv); A.zero = true; A.plist = 0;
    // reach a nesting of up to 2 (3) open blocks, then one arbitrary block call
    int d = vs_choose(0, vs_tier() ? 3 : 2, "depth");
    for(int i = 0; i < d; ++i) vs_assume(probe(SC[vs_choose(0, 7, "open")], A, false));
    int k = vs_choose(0, 15, "block"); if(vs_bool("second")) { probe(SC[k], A, false); int k2 = vs_choose(0, 15, "block2"); probe(SC[k2], A, false); probe(RI_FrameBegin, A, false); vs_reach("end"); return; }
    probe(SC[k], A, false); A.plist = 0;
    for(int id = 0; id < RI_NCALLS; ++id) if(!isScope(id)) probe(id, A, false);
    vs_reach("end");
}
static void enter(bool world) { flt->FrameBegin(1); rules->FrameBegin(1); if(world) { flt->WorldBegin(); rules->WorldBegin(); } }
static void ranges(int part, int parts) {
    setup(vs_bool("relaxed"));
    int id = vs_choose(0, RI_NCALLS - 1, "call"); vs_assume(id % parts == part && !isScope(id));
    enter(vs_bool("world"));
    RiArgs A(wsv); A.any = true; A.plist = 0; A.alen = 2; probe(id, A, true); vs_reach("end");
}
static Ri::TypeSpec anySpec() {
    static const Ri::TypeSpec::Type ty[] = {Ri::TypeSpec::Float, Ri::TypeSpec::Point, Ri::TypeSpec::HPoint, Ri::TypeSpec::Matrix, Ri::TypeSpec::Color, Ri::TypeSpec::Integer, Ri::TypeSpec::String, Ri::TypeSpec::Normal};
    static const Ri::TypeSpec::IClass ic[] = {Ri::TypeSpec::Constant, Ri::TypeSpec::Uniform, Ri::TypeSpec::Varying, Ri::TypeSpec::Vertex, Ri::TypeSpec::FaceVarying, Ri::TypeSpec::FaceVertex};
    int c = vs_choose(0, 5, "class"); int t = vs_choose(0, 7, "type"); vs_assume(vs_tier() || t == 0 || c == 2 || (t == 1 && c == 3));
    return Ri::TypeSpec(ic[c], ty[t], vs_choose(1, t == 0 ? 2 : 1, "array"));
}
static float fbuf[64]; static int ibuf[64]; static const char* sbuf[8] = {"a", "b", "c", "d", "e", "f", "g", "h"};
static Ri::Param symParam(const Ri::TypeSpec& s, const char* name, int max) {
    unsigned n = vs_u32("size"); vs_assume(n <= (unsigned)max);
    switch(s.storageType()) {
        case Ri::TypeSpec::Integer: return Ri::Param(s, name, Ri::IntArray(ibuf, n));
        case Ri::TypeSpec::String: return Ri::Param(s, name, Ri::StringArray(sbuf, n));
        default: return Ri::Param(s, name, Ri::FloatArray(fbuf, n));
    }
}
struct One : StubRenderer { int n; One() : n(0) {}
    virtual RtVoid GeneralPolygon(const Ri::IntArray&, const Ri::ParamList&) { ++n; } virtual RtVoid Polygon(const Ri::ParamList&) { ++n; } virtual RtVoid Points(const Ri::ParamList&) { ++n; }
    virtual RtVoid PointsPolygons(const Ri::IntArray&, const Ri::IntArray&, const Ri::ParamList&) { ++n; } virtual RtVoid PointsGeneralPolygons(const Ri::IntArray&, const Ri::IntArray&, const Ri::IntArray&, const Ri::ParamList&) { ++n; }
    virtual RtVoid Patch(RtConstToken, const Ri::ParamList&) { ++n; } virtual RtVoid PatchMesh(RtConstToken, RtInt, RtConstToken, RtInt, RtConstToken, const Ri::ParamList&) { ++n; }
    virtual RtVoid NuPatch(RtInt, RtInt, const Ri::FloatArray&, RtFloat, RtFloat, RtInt, RtInt, const Ri::FloatArray&, RtFloat, RtFloat, const Ri::ParamList&) { ++n; }
    virtual RtVoid TrimCurve(const Ri::IntArray&, const Ri::IntArray&, const Ri::FloatArray&, const Ri::FloatArray&, const Ri::FloatArray&, const Ri::IntArray&, const Ri::FloatArray&, const Ri::FloatArray&, const Ri::FloatArray&) { ++n; }
    virtual RtVoid SubdivisionMesh(RtConstToken, const Ri::IntArray&, const Ri::IntArray&, const Ri::TokenArray&, const Ri::IntArray&, const Ri::IntArray&, const Ri::FloatArray&, const Ri::ParamList&) { ++n; }
    virtual RtVoid Sphere(RtFloat, RtFloat, RtFloat, RtFloat, const Ri::ParamList&) { ++n; } virtual RtVoid Torus(RtFloat, RtFloat, RtFloat, RtFloat, RtFloat, const Ri::ParamList&) { ++n; }
    virtual RtVoid Curves(RtConstToken, const Ri::IntArray&, RtConstToken, const Ri::ParamList&) { ++n; } virtual RtVoid Blobby(RtInt, const Ri::IntArray&, const Ri::FloatArray&, const Ri::TokenArray&, const Ri::ParamList&) { ++n; }
    virtual RtVoid Geometry(RtConstToken, const Ri::ParamList&) { ++n; } virtual RtVoid Surface(RtConstToken, const Ri::ParamList&) { ++n; } virtual RtVoid ColorSamples(const Ri::FloatArray&, const Ri::FloatArray&) { ++n; }
};
static One* one;
template<class F> static void judge(F f) {
    bool threw = false; Tee t(*rules, *flt); int before = one->n;
    try { f(t); } catch(XqValidation&) { threw = true; }
    vs_assert(threw == !rules->ok, "a call is refused exactly when an array is too short for it");
    vs_assert(one->n == before + (threw ? 0 : 1), "allowed calls are passed on once and refused ones are not"); vs_reach("end");
}
static Ri::IntArray ints(const char* name, int lo, int hi, int maxn) { int n = vs_choose(0, maxn, name); int* p = new int[4]; for(int i = 0; i < n; ++i) p[i] = vs_range(lo, hi, name); return Ri::IntArray(p, n); }
static Ri::FloatArray flen(const char* name, int max) { unsigned n = vs_u32(name); vs_assume(n <= (unsigned)max); return Ri::FloatArray(fbuf, n); }
static Ri::IntArray ilen(const char* name, int max) { unsigned n = vs_u32(name); vs_assume(n <= (unsigned)max); return Ri::IntArray(ibuf, n); }
static const char* const wr[] = {"periodic", "nonperiodic"};
static void arrays(int which) {
    one = new One; bool rel = which == 12; setup(rel, one); enter(true);
    Ri::Param p[2]; int np = 1;
    int name = vs_choose(0, 2, "name"); vs_assume(name == 0 || which <= 4 || which == 9);
    p[0] = name == 0 ? symParam(anySpec(), "x", 400) : symParam(Ri::TypeSpec(Ri::TypeSpec::Vertex, name == 1 ? Ri::TypeSpec::Point : Ri::TypeSpec::HPoint, 1), name == 1 ? "P" : "Pw", 60);
    if(name && vs_bool("other")) { p[1] = symParam(Ri::TypeSpec(Ri::TypeSpec::Varying, Ri::TypeSpec::Float, 1), "w", 60); np = 2; }
    Ri::ParamList pl(p, np);
    switch(which) {
        case 0: judge([&](Ri::Renderer& r) { r.Polygon(pl); }); break;
        case 1: { Ri::IntArray a = ints("nverts", 0, 9, 3); judge([&](Ri::Renderer& r) { r.GeneralPolygon(a, pl); }); break; }
        case 2: judge([&](Ri::Renderer& r) { r.Points(pl); }); break;
        case 3: { Ri::IntArray a = ints("nverts", 0, 3, 2), b = ints("verts", 0, 9, 3); judge([&](Ri::Renderer& r) { r.PointsPolygons(a, b, pl); }); break; }
        case 4: { vs_assume(name == 0); Ri::IntArray l = ints("nloops", 0, 2, 1), a = ints("nverts", 0, 3, 2), b = ints("verts", 0, 9, 3); judge([&](Ri::Renderer& r) { r.PointsGeneralPolygons(l, a, b, pl); }); break; }
        case 5: { int k = vs_choose(0, 1, "type"); judge([&](Ri::Renderer& r) { r.Patch(k ? "bilinear" : "bicubic", pl); }); break; }
        case 6: case 12: {
            int us = vs_choose(1, 4, "ustep"), vs = vs_choose(1, 3, "vstep"); static float bm[4][4]; RtConstBasis& b = *(RtConstBasis*)&bm;
            int scoped = vs_choose(0, vs_tier() ? 2 : 1, "scoped"); // basis set in an enclosing, the same, or an already closed block
            vs_assume(us == vs || vs == 1 || vs_tier());
            if(scoped) { flt->AttributeBegin(); rules->AttributeBegin(); if(scoped == 2) { flt->TransformBegin(); rules->TransformBegin(); } }
            flt->Basis(b, us, b, vs); rules->Basis(b, us, b, vs);
            if(scoped == 2) { flt->TransformEnd(); rules->TransformEnd(); } if(scoped == 1) { flt->AttributeEnd(); rules->AttributeEnd(); }
            int nu = vs_range(1, 20, "nu"), nv = vs_range(1, 20, "nv"); int k = vs_choose(0, 1, "type"), w1 = vs_choose(0, 1, "uwrap"), w2 = vs_choose(0, 1, "vwrap");
            judge([&](Ri::Renderer& r) { r.PatchMesh(k ? "bilinear" : "bicubic", nu, wr[w1], nv, wr[w2], pl); }); break; }
        case 7: { int nu = vs_range(-1, 6, "nu"), nv = vs_range(-1, 6, "nv"), uo = vs_range(-1, 4, "uorder"), vo = vs_range(-1, 4, "vorder"); Ri::FloatArray uk = flen("uknot", 20), vk = flen("vknot", 20);
            judge([&](Ri::Renderer& r) { r.NuPatch(nu, uo, uk, 0, 1, nv, vo, vk, 0, 1, pl); }); break; }
        case 8: { vs_assume(p[0].spec().iclass == Ri::TypeSpec::Constant && p[0].spec().type == Ri::TypeSpec::Float && p[0].spec().arraySize == 1); Ri::IntArray nc = ints("ncurves", 0, 2, 2), od = ints("order", 0, 3, 2), n = ints("n", 0, 4, 2);
            Ri::FloatArray k = flen("knot", 20), mn = flen("min", 3), mx = flen("max", 3), u = flen("u", 9), v = flen("v", 9), w = flen("w", 9);
            judge([&](Ri::Renderer& r) { r.TrimCurve(nc, od, k, mn, mx, n, u, v, w); }); break; }
        case 9: { Ri::IntArray nv = ints("nvertices", 0, 3, 2), v = ints("vertices", 0, 9, 3); int nt = vs_choose(0, 1, "ntags"); Ri::IntArray na = ints("nargs", 0, 3, nt ? 3 : 1); Ri::IntArray ia = ilen("intargs", 9); Ri::FloatArray fa = flen("floatargs", 9);
            vs_assume(name == 0 && (vs_tier() || (p[0].spec().type == Ri::TypeSpec::Float && p[0].spec().arraySize == 1)));
            judge([&](Ri::Renderer& r) { r.SubdivisionMesh("catmull-clark", nv, v, Ri::TokenArray(sbuf, nt), na, ia, fa, pl); }); break; }
        case 10: { int k = vs_choose(0, 4, "call"); switch(k) {
            case 0: judge([&](Ri::Renderer& r) { r.Sphere(1, -1, 1, 360, pl); }); break; case 1: judge([&](Ri::Renderer& r) { r.Torus(1, 1, 0, 1, 360, pl); }); break;
            case 2: judge([&](Ri::Renderer& r) { r.Geometry("teapot", pl); }); break; case 3: judge([&](Ri::Renderer& r) { r.Surface("matte", pl); }); break;
            case 4: { int n = vs_range(0, 9, "nleaf"); judge([&](Ri::Renderer& r) { r.Blobby(n, Ri::IntArray(ibuf, 1), Ri::FloatArray(fbuf, 1), Ri::TokenArray(sbuf, 0), pl); }); break; } } break; }
        case 11: { p[1] = symParam(Ri::TypeSpec(Ri::TypeSpec::Vertex, Ri::TypeSpec::Point, 1), "P", 60); Ri::ParamList pl2(p, vs_choose(1, 2, "np")); static float bm[4][4]; RtConstBasis& b = *(RtConstBasis*)&bm; int vs = vs_choose(1, 4, "vstep"); flt->Basis(b, 3, b, vs); rules->Basis(b, 3, b, vs);
            Ri::IntArray nv = ints("nvertices", 0, 12, 2); int k = vs_choose(0, 1, "type"), w = vs_choose(0, 1, "wrap"); judge([&](Ri::Renderer& r) { r.Curves(k ? "linear" : "cubic", nv, wr[w], pl2); }); break; }
        case 13: { Ri::FloatArray a = flen("nRGB", 20), b = flen("RGBn", 20); vs_assume(p[0].spec().iclass == Ri::TypeSpec::Constant && p[0].spec().type == Ri::TypeSpec::Float && p[0].spec().arraySize == 1); flt->WorldEnd(); rules->WorldEnd(); judge([&](Ri::Renderer& r) { r.ColorSamples(a, b); }); break; }
    }
}
void harness() {
    nul = new std::ostream((std::streambuf*)0); wsv = createRibWriter(*nul, RibWriterOptions()); svc = new ReadSvc(wsv);
    int c = vs_case();
    if(c == 0) scopes(false); else if(c == 1) scopes(true); else if(c < 6) ranges(c - 2, 4); else arrays(c - 10);
}
