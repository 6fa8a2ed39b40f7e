// C22: calls of the C interface (ri.h) arrive at the C++ interface as the same call.
#include "ri_record.h"
#include <aqsis/ri/ri.h>
#include <aqsis/riutil/ri2ricxx.h>
#include <aqsis/riutil/ricxxutil.h>
#include <aqsis/riutil/ribwriter.h>
#include <aqsis/util/exception.h>
using namespace Aqsis;
static int preBegin = 0; static RtToken preName; static RtInt preCount;
namespace Aqsis { void riToRiCxxOptionPreBegin(RtToken name, RtInt count, RtToken*, RtPointer*) { ++preBegin; preName = name; preCount = count; } }
static const char* const clsName[] = {"constant", "uniform", "varying", "vertex", "facevarying", "facevertex"};
static const Ri::TypeSpec::IClass cls[] = {Ri::TypeSpec::Constant, Ri::TypeSpec::Uniform, Ri::TypeSpec::Varying, Ri::TypeSpec::Vertex, Ri::TypeSpec::FaceVarying, Ri::TypeSpec::FaceVertex};
static const char* const tyName[] = {"float", "integer", "string", "color", "point", "vector", "normal", "hpoint", "matrix"};
static const Ri::TypeSpec::Type tys[] = {Ri::TypeSpec::Float, Ri::TypeSpec::Integer, Ri::TypeSpec::String, Ri::TypeSpec::Color, Ri::TypeSpec::Point, Ri::TypeSpec::Vector, Ri::TypeSpec::Normal, Ri::TypeSpec::HPoint, Ri::TypeSpec::Matrix};
static const int tyLen[] = {1, 1, 1, 3, 3, 3, 3, 4, 16};
struct CApiBase {
    bool varargs; int np, nv; int blanks; RtToken tok[4]; RtPointer val[4]; void* last; void* named[4];
    CApiBase() : varargs(false), np(0), nv(-1), blanks(0), last(0) {}
    static RtInt* c_arr(const Ri::IntArray& a) { return a.size() ? (RtInt*)&a[0] : 0; }
    static RtFloat* c_arr(const Ri::FloatArray& a) { return a.size() ? (RtFloat*)&a[0] : 0; }
    static char** c_arr(const Ri::StringArray& a) { return a.size() ? (char**)&a[0] : 0; }
    static RtFloat (*c_mat(RtConstBasis m))[4] { return (RtFloat (*)[4])m; }
    static char* c_str(const char* s) { return (char*)s; }
    void* handle(const char* n) { return named[n[0] - 'a']; }
    int nverts_of(const Ri::ParamList&) { return nv; }
    void c_list(const Ri::ParamList& p) {
        np = (int)p.size();
        for(int i = 0; i < np; ++i) {
            const Ri::TypeSpec& t = p[i].spec(); std::string d; int c = 0, y = 0;
            for(int k = 0; k < 6; ++k) if(cls[k] == t.iclass) c = k;
            for(int k = 0; k < 9; ++k) if(tys[k] == t.type) y = k;
            d = clsName[c]; d += ' '; d += tyName[y]; if(t.arraySize != 1) { d += '['; d += (char)('0' + t.arraySize); d += ']'; }
            d += ' '; d += p[i].name(); if((blanks >> i) & 1) d += ' ';
            char* q = new char[d.size() + 1]; memcpy(q, d.c_str(), d.size() + 1); tok[i] = q;
            switch(t.storageType()) {
                case Ri::TypeSpec::Integer: val[i] = c_arr(p[i].intData()); break;
                case Ri::TypeSpec::String: val[i] = c_arr(p[i].stringData()); break;
                default: val[i] = c_arr(p[i].floatData()); break;
            }
        }
    }
    void freeList() { for(int i = 0; i < np; ++i) delete[] tok[i]; np = 0; }
};
#include "ri_capi.inc"
static std::ostream* nul; static RibWriterServices* wsv; static ReadSvc* svc;
struct Probe : Recorder { Probe() : Recorder(wsv) {} };
struct Rig {
    Probe want, got; CApi c; Tee t; RiArgs A;
    Rig() : t(want, c), A(wsv) { svc->first = &got; A.any = true; riToRiCxxBegin(*svc); }
    ~Rig() { riToRiCxxEnd(); c.freeList(); }
    void same() { vs_assert(svc->err.n == 0, "no error"); vs_assert(want.ncalls == got.ncalls, "one call arrives for each call made"); recSame(want, got, "the call arrives as it was made"); vs_reach("end"); }
    Ri::Param par(int c, int y, int arr, int count, const char* name) { return A.param(Ri::TypeSpec(cls[c], tys[y], arr), name, count * arr * tyLen[y]); }
    // one parameter of any class with the count of that class, and one of a fixed kind after it
    Ri::ParamList list(const int* counts, bool any) {
        Ri::Param* p = A.al<Ri::Param>(3); int cl = vs_choose(0, 5, "class"), y = any ? vs_choose(0, 8, "type") : 0, arr = any ? vs_choose(1, 2, "array") : 1;
        p[0] = par(cl, y, arr, counts[cl], "first"); if(!any) return Ri::ParamList(p, 1);
        int cl2 = vs_choose(0, 5, "class2"); p[1] = par(cl2, 1, 1, counts[cl2], "second"); return Ri::ParamList(p, 2);
    }
};
//---- calls without arrays: every argument, parameter lists of class count 1
static void simple(int part, int of, bool va) {
    Rig r; r.c.varargs = va; r.A.slen = 2; int id = vs_choose(0, RI_NCALLS - 1, "call"); vs_assume(id % of == part);
    static const char* const skip[] = {"ColorSamples", "Polygon", "GeneralPolygon", "PointsPolygons", "PointsGeneralPolygons", "PatchMesh", "NuPatch", "TrimCurve", "SubdivisionMesh", "Points", "Curves", "Blobby", "MotionBegin", "MakeOcclusion",
        "LightSource", "AreaLightSource", "Illuminate", "ObjectBegin", "ObjectInstance", "Patch", "Sphere", "Cone", "Cylinder", "Hyperboloid", "Paraboloid", "Disk", "Torus"};
    for(size_t i = 0; i < sizeof skip / sizeof *skip; ++i) vs_assume(strcmp(riCallNames[id], skip[i]) != 0);
    r.A.plist = 0; riCall(id, r.t, r.A); r.same();
}
// every call with a parameter list, of one or three parameters
static void lists(int part, int of, bool va) {
    Rig r; r.c.varargs = va; r.c.blanks = vs_choose(0, 7, "blanks"); int one[6] = {1, 1, 1, 1, 1, 1}; RiArgs& A = r.A;
    Ri::Param* p = A.al<Ri::Param>(3); int y = vs_choose(0, 8, "type"), k = vs_choose(0, 5, "class"), np = vs_choose(0, 3, "params");
    vs_assume(r.c.blanks < (1 << np)); vs_assume(k == 0 || y == 0); vs_assume((y == 0 && k == 0) || (r.c.blanks == 0 && np == 1));
    p[0] = r.par(k, y, 2, one[k], "abc"); p[1] = r.par(1, 3, 1, 1, "aLongParameterNameIndeed"); p[2] = r.par(2, 2, 1, 1, "z"); Ri::ParamList l(p, np);
    const char* s = A.s(1); float f = A.f(); RtFilterFunc ff = wsv->getFilterFunc("box"); const float* pt = A.fl(3, "");
    int id = vs_choose(0, 18, "call"); vs_assume(id % of == part);
    switch(id) {
        case 0: r.t.Projection(s, l); break; case 1: r.t.Imager(s, l); break; case 2: r.t.Display(s, "t", "m", l); break; case 3: r.t.Hider(s, l); break; case 4: r.t.Option(s, l); break;
        case 5: r.t.Surface(s, l); break; case 6: r.t.Displacement(s, l); break; case 7: r.t.Atmosphere(s, l); break; case 8: r.t.Interior(s, l); break; case 9: r.t.Exterior(s, l); break;
        case 10: r.t.ShaderLayer("t", s, "l", l); break; case 11: r.t.Resource(s, "t", l); break; case 12: r.t.Attribute(s, l); break;
        case 13: r.t.MakeTexture(s, "t", "u", "v", ff, f, 2, l); break; case 14: r.t.MakeLatLongEnvironment(s, "t", ff, f, 2, l); break;
        case 15: r.t.MakeCubeFaceEnvironment("a", "b", "c", "d", "e", s, "g", f, ff, 1, 2, l); break; case 16: r.t.MakeShadow(s, "t", l); break; case 17: r.t.ReadArchive(s, 0, l); break; case 18: r.t.ArchiveBegin(s, l); break;
    }
    r.same();
}
static Ri::IntArray ints(RiArgs& A, const int* v, int n) { RtInt* p = A.al<RtInt>(n); for(int i = 0; i < n; ++i) p[i] = v[i]; return Ri::IntArray(p, n); }
static Ri::IntArray anyInts(RiArgs& A, int n) { RtInt* p = A.al<RtInt>(n); for(int i = 0; i < n; ++i) p[i] = A.i(); return Ri::IntArray(p, n); }
static Ri::FloatArray fls(RiArgs& A, int n) { return Ri::FloatArray(A.fl(n, ""), n); }
static Ri::TokenArray strs(RiArgs& A, int n) { const char** p = A.al<const char*>(n); for(int i = 0; i < n; ++i) p[i] = A.s(1); return Ri::TokenArray(p, n); }
static void prims(int id, bool va) {
    Rig r; r.c.varargs = va; RiArgs& A = r.A; Ri::Renderer& t = r.t; int c[6] = {1, 1, 1, 1, 1, 1};
#define SET(u, va, ve, fva, fve) { c[1] = u; c[2] = va; c[3] = ve; c[4] = fva; c[5] = fve; }
    switch(id) {
        case 0: { int q = vs_choose(0, 7, "quadric"); SET(1, 4, 4, 4, 4) Ri::ParamList l = r.list(c, q == 0);
            float a = A.f(), b = A.f(), d = A.f(), e = A.f(), f = A.f(); const float *p = A.fl(3, ""), *p2 = A.fl(3, "");
            switch(q) { case 0: t.Sphere(a, b, d, e, l); break; case 1: t.Cone(a, b, d, l); break; case 2: t.Cylinder(a, b, d, e, l); break; case 3: t.Hyperboloid(p, p2, a, l); break; case 4: t.Paraboloid(a, b, d, e, l); break; case 5: t.Disk(a, b, d, l); break; case 6: t.Torus(a, b, d, e, f, l); break; case 7: { SET(1, 4, 16, 4, 4) bool bil = vs_bool("bilinear"); if(bil) c[3] = 4; t.Patch(bil ? "bilinear" : "bicubic", r.list(c, false)); break; } }
            break; }
        case 1: { int n = vs_choose(1, 4, "n"); SET(1, n, n, n, n) r.c.nv = n; Ri::ParamList l = r.list(c, true); if(vs_bool("points")) t.Points(l); else t.Polygon(l); break; }
        case 2: { int nl = vs_choose(1, 3, "loops"), nvs[3], s = 0; for(int i = 0; i < nl; ++i) s += nvs[i] = vs_choose(1, 3, "nv"); SET(1, s, s, s, s) t.GeneralPolygon(ints(A, nvs, nl), r.list(c, false)); break; }
        case 3: { int n = vs_choose(1, 2, "polys"), nvs[2], s = 0, vs[6], m = 0; for(int i = 0; i < n; ++i) s += nvs[i] = vs_choose(1, 3, "nv"); vs_assume(s <= 4); for(int i = 0; i < s; ++i) { vs[i] = vs_choose(0, 3, "v"); if(vs[i] > m) m = vs[i]; } SET(n, m + 1, m + 1, s, s)
            vs_assume(s <= 3 || vs[0] == 0); t.PointsPolygons(ints(A, nvs, n), ints(A, vs, s), r.list(c, false)); break; }
        case 4: { int n = vs_choose(1, 2, "polys"), nl[2], nvs[4], L = 0, s = 0, vs[8], m = 0; for(int i = 0; i < n; ++i) L += nl[i] = vs_choose(1, 2, "nl"); for(int i = 0; i < L; ++i) s += nvs[i] = vs_choose(1, 2, "nv"); vs_assume(s <= 5); for(int i = 0; i < s; ++i) { vs[i] = i < 2 ? vs_choose(0, 3, "v") : 1; if(vs[i] > m) m = vs[i]; } SET(n, m + 1, m + 1, s, s)
            t.PointsGeneralPolygons(ints(A, nl, n), ints(A, nvs, L), ints(A, vs, s), r.list(c, false)); break; }
        case 5: { bool bil = vs_bool("bilinear"), up = vs_bool("up"), vp = vs_bool("vp"); int us = 3, vs = 3, nu, nv;
            if(vs_bool("basis")) { us = vs_choose(1, 4, "us"); vs = vs_choose(1, 3, "vs"); t.Basis(A.mat(""), us, A.mat(""), vs); }
            int pu = vs_choose(1, 2, "pu"), pv = vs_choose(1, 3, "pv"); int uni, var;
            if(bil) { nu = up ? pu : pu + 1; nv = vp ? pv : pv + 1; uni = pu * pv; var = nu * nv; } else { nu = up ? pu * us : (pu - 1) * us + 4; nv = vp ? pv * vs : (pv - 1) * vs + 4; uni = pu * pv; var = (pu + !up) * (pv + !vp); }
            SET(uni, var, nu * nv, 1, 1) Ri::Param* p = A.al<Ri::Param>(1); int k = vs_choose(0, 3, "class"); p[0] = r.par(k, 1, 1, c[k], "pp"); t.PatchMesh(bil ? "bilinear" : "bicubic", nu, up ? "periodic" : "nonperiodic", nv, vp ? "periodic" : "nonperiodic", Ri::ParamList(p, 1)); break; }
        case 6: { int uo = vs_choose(2, 4, "uorder"), vo = vs_choose(2, 3, "vorder"), su = vs_choose(1, 3, "useg"), sv = vs_choose(1, 2, "vseg"), nu = su + uo - 1, nv = sv + vo - 1; SET(su * sv, (su + 1) * (sv + 1), nu * nv, (su + 1) * (sv + 1), (su + 1) * (sv + 1))
            t.NuPatch(nu, uo, fls(A, nu + uo), A.f(), A.f(), nv, vo, fls(A, nv + vo), A.f(), A.f(), r.list(c, false)); break; }
        case 7: { int nl = vs_choose(1, 2, "loops"), nc[2], C = 0, o[4], n[4], so = 0, sn = 0; for(int i = 0; i < nl; ++i) C += nc[i] = vs_choose(1, 2, "nc"); for(int i = 0; i < C; ++i) { so += o[i] = vs_choose(2, 3, "order"); sn += n[i] = vs_choose(2, 4, "n"); }
            t.TrimCurve(ints(A, nc, nl), ints(A, o, C), fls(A, so + sn), fls(A, C), fls(A, C), ints(A, n, C), fls(A, sn), fls(A, sn), fls(A, sn)); break; }
        case 8: { int n = vs_choose(1, 2, "faces"), nvs[2], s = 0, m = 0, vs[6], nt = vs_choose(0, 2, "tags"), na[4], si = 0, sf = 0; for(int i = 0; i < n; ++i) s += nvs[i] = vs_choose(2, 3, "nv"); for(int i = 0; i < s; ++i) { vs[i] = i == 1 ? vs_choose(0, 5, "v") : i % 3; if(vs[i] > m) m = vs[i]; }
            for(int i = 0; i < nt; ++i) { si += na[2 * i] = vs_choose(0, 2, "ia"); sf += na[2 * i + 1] = vs_choose(0, 1, "fa"); } SET(n, m + 1, m + 1, s, s)
            Ri::ParamList l = nt ? Ri::ParamList() : r.list(c, false); t.SubdivisionMesh("catmull-clark", ints(A, nvs, n), ints(A, vs, s), strs(A, nt), ints(A, na, 2 * nt), anyInts(A, si), fls(A, sf), l); break; }
        case 9: { bool cub = vs_bool("cubic"), per = vs_bool("periodic"); int step = 3; if(vs_bool("basis")) { step = vs_choose(1, 3, "vstep"); t.Basis(A.mat(""), vs_choose(1, 2, "ustep"), A.mat(""), step); }
            int n = vs_choose(1, 2, "curves"), nvs[2], s = 0, var = 0; for(int i = 0; i < n; ++i) { int seg = vs_choose(1, 3, "segs"); nvs[i] = cub ? per ? seg * step : (seg - 1) * step + 4 : seg + 1; s += nvs[i]; var += cub ? per ? seg : seg + 1 : nvs[i]; }
            SET(n, var, s, 1, 1) Ri::Param* p = A.al<Ri::Param>(1); int k = vs_choose(0, 3, "class"); p[0] = r.par(k, 1, 1, c[k], "pp"); t.Curves(cub ? "cubic" : "linear", ints(A, nvs, n), per ? "periodic" : "nonperiodic", Ri::ParamList(p, 1)); break; }
        case 10: { int nl = vs_choose(0, 2, "leaves"), nc = vs_choose(0, 3, "ncode"), nf = vs_choose(0, 2, "nf"), ns = vs_choose(0, 2, "ns"); SET(1, nl, nl, nl, nl) t.Blobby(nl, anyInts(A, nc), fls(A, nf), strs(A, ns), r.list(c, false)); break; }
        case 11: { int k = vs_choose(0, 2, "call"), n = vs_choose(1, 3, "n"); if(k == 0) t.ColorSamples(fls(A, 3 * n), fls(A, 3 * n)); else if(k == 1) { A.ascii = va; t.MotionBegin(fls(A, n)); } else { Ri::Param* p = A.al<Ri::Param>(1); p[0] = r.par(1, 1, 1, 1, "pp"); t.MakeOcclusion(strs(A, n), "s", Ri::ParamList(p, 1)); } break; }
    }
    r.same();
}
//---- the basis steps follow the attribute scopes
static void basisScopes() {
    Rig r; RiArgs& A = r.A; CApi& c = r.c; std::vector<int> open; std::vector<std::pair<int, int> > st; int us = 3, vs = 3; int n = vs_tier() ? 5 : 4; float t0[1] = {0}; A.zero = true;
    int len = vs_choose(1, n, "len");
    for(int k = 0; k < len; ++k) {
        int op = vs_choose(0, 8, "op");
        if(op == 0) { us = 1 + k % 3; vs = 2 + k % 2; c.Basis(A.mat(""), us, A.mat(""), vs); }
        else if(op == 8) { vs_assume(!open.empty()); int o = open.back(); open.pop_back();
            if(o == 1) c.AttributeEnd(); if(o == 2) c.WorldEnd(); if(o == 3) c.FrameEnd(); if(o == 4) c.SolidEnd(); if(o == 5) c.ObjectEnd(); if(o == 6) c.TransformEnd(); if(o == 7) c.ArchiveEnd();
            if(o != 6) { us = st.back().first; vs = st.back().second; st.pop_back(); } }
        else { open.push_back(op); if(op != 6) st.push_back(std::make_pair(us, vs));
            if(op == 1) c.AttributeBegin(); if(op == 2) c.WorldBegin(); if(op == 3) c.FrameBegin(1); if(op == 4) c.SolidBegin("union"); if(op == 5) c.ObjectBegin("a"); if(op == 6) c.TransformBegin(); if(op == 7) c.ArchiveBegin("a", Ri::ParamList()); }
    }
    r.got.w.clear(); int before = r.got.ncalls; Ri::Param* p = A.al<Ri::Param>(1);
    int pu = 2, pv = 3, nu = (pu - 1) * us + 4, nv = (pv - 1) * vs + 4; p[0] = r.par(2, 1, 1, (pu + 1) * (pv + 1), "pp"); c.PatchMesh("bicubic", nu, "nonperiodic", nv, "nonperiodic", Ri::ParamList(p, 1)); c.freeList();
    r.want.PatchMesh("bicubic", nu, "nonperiodic", nv, "nonperiodic", Ri::ParamList(p, 1));
    vs_assert(r.got.ncalls == before + 1, "one call arrives"); recSame(r.want, r.got, "the basis in force determines the lengths"); vs_reach("end");
}
//---- handles
struct Handles : Recorder {
    std::string n; int lights, areas, objs, illum, inst; int onoff;
    Handles() : Recorder(wsv), lights(0), areas(0), objs(0), illum(0), inst(0), onoff(-1) {}
    virtual RtVoid LightSource(RtConstToken, RtConstToken name, const ParamList&) { n = name; ++lights; }
    virtual RtVoid AreaLightSource(RtConstToken, RtConstToken name, const ParamList&) { n = name; ++areas; }
    virtual RtVoid ObjectBegin(RtConstToken name) { n = name; ++objs; }
    virtual RtVoid ObjectInstance(RtConstToken name) { n = name; ++inst; }
    virtual RtVoid Illuminate(RtConstToken name, RtBoolean on) { n = name; ++illum; onoff = on; }
};
static void handles(bool va) {
    Handles h; svc->first = &h; riToRiCxxBegin(*svc); CApi c; c.varargs = va;
    std::vector<void*> hs; std::vector<std::string> names; std::vector<int> depth; int d = 0; std::vector<int> open; int len = vs_choose(1, vs_tier() ? 6 : 5, "len");
    for(int k = 0; k < len; ++k) {
        int op = vs_choose(0, 6, "op");
        if(op < 3) { vs_assume(hs.size() < 3); int l = h.lights, a = h.areas, o = h.objs; if(op == 0) c.LightSource("s", "x", Ri::ParamList()); if(op == 1) c.AreaLightSource("s", "x", Ri::ParamList()); if(op == 2) c.ObjectBegin("x");
            vs_assert(h.lights == l + (op == 0) && h.areas == a + (op == 1) && h.objs == o + (op == 2), "the light or object arrives");
            vs_assert(c.last != 0, "a handle is returned");
            if(op == 2) c.ObjectEnd();
            for(size_t i = 0; i < hs.size(); ++i) if(depth[i] >= 0) { vs_assert(hs[i] != c.last, "handles are distinct"); vs_assert(names[i] != h.n, "names are distinct"); }
            hs.push_back(c.last); names.push_back(h.n); depth.push_back(d); }
        else if(op == 3) { vs_assume(d < 2); ++d; open.push_back(vs_choose(0, 1, "world")); if(open.back()) RiWorldBegin(); else RiFrameBegin(1); }
        else if(op == 4) { vs_assume(d > 0); if(open.back()) RiWorldEnd(); else RiFrameEnd(); open.pop_back(); for(size_t i = 0; i < hs.size(); ++i) if(depth[i] == d) depth[i] = -1; --d; }
        else { vs_assume(!hs.empty()); size_t i = vs_choose(0, (int)hs.size() - 1, "which"); int e = svc->err.n, il = h.illum, in = h.inst; bool live = depth[i] >= 0;
            if(!live) for(size_t j = 0; j < hs.size(); ++j) vs_assume(depth[j] < 0 || hs[j] != hs[i]);
            int on = vs_choose(0, 1, "on"); if(op == 5) RiIlluminate(hs[i], on); else RiObjectInstance(hs[i]);
            vs_assert((svc->err.n == e) == live, "a handle is good until the end of the frame or world it was made in");
            vs_assert(h.illum == il + (live && op == 5) && h.inst == in + (live && op == 6), "the use of a good handle arrives");
            if(live) { vs_assert(h.n == names[i], "a handle stands for the light or object it was returned for"); if(op == 5) vs_assert(h.onoff == on, "on or off"); } }
    }
    vs_reach("end"); riToRiCxxEnd();
}
//---- errors do not get out and do not disturb later calls
struct Thrower : Recorder {
    int what; Thrower() : Recorder(wsv), what(0) {}
    void go() { switch(what) { case 1: AQSIS_THROW_XQERROR(XqValidation, EqE_Range, "v"); case 2: AQSIS_THROW_XQERROR(XqInternal, EqE_Bug, "i"); case 3: throw std::exception(); case 4: throw 7; } }
    virtual RtVoid Sides(RtInt n) { go(); Recorder::Sides(n); }
    virtual RtVoid Surface(RtConstToken n, const ParamList& p) { go(); Recorder::Surface(n, p); }
    virtual RtVoid WorldBegin() { go(); Recorder::WorldBegin(); }
    virtual RtVoid LightSource(RtConstToken a, RtConstToken b, const ParamList& p) { go(); Recorder::LightSource(a, "x", p); }
    virtual RtVoid Declare(RtConstString a, RtConstString b) { go(); Recorder::Declare(a, b); }
    virtual RtVoid ArchiveRecord(RtConstToken a, const char* b) { go(); Recorder::ArchiveRecord(a, b); }
};
static void errors() {
    Thrower h; svc->first = &h; riToRiCxxBegin(*svc); h.what = vs_choose(0, 4, "exception"); int call = vs_choose(0, 5, "call"); bool out = false;
    try { switch(call) { case 0: RiSides(1); break; case 1: RiSurface((char*)"s", RI_NULL); break; case 2: RiWorldBegin(); break; case 3: { void* l = RiLightSource((char*)"s", RI_NULL); vs_assert((l != 0) == (h.what == 0), "no handle for a light that was not made"); break; } case 4: RiDeclare((char*)"a", (char*)"uniform float"); break; case 5: RiArchiveRecord((char*)"comment", (char*)"x"); break; } } catch(...) { out = true; }
    vs_assert(!out, "no exception gets out of the C interface"); vs_assert(svc->err.n == (h.what != 0), "each failure is reported once"); vs_assert(h.ncalls == (h.what == 0), "the call arrives unless it fails");
    h.what = 0; int n = h.ncalls, e = svc->err.n; RiSides(2); vs_assert(h.ncalls == n + 1 && svc->err.n == e, "later calls arrive"); vs_reach("end"); riToRiCxxEnd();
}
// a parameter whose declaration is unknown or malformed makes the call an error
static void badTokens() {
    Probe g; svc->first = &g; riToRiCxxBegin(*svc); static const char* const t[] = {"nosuch", "uniform", "uniform flot x", "", "uniform float x y"};
    int k = vs_choose(0, 4, "token"), pos = vs_choose(0, 1, "pos"), call = vs_choose(0, 2, "call"); float v[4] = {0, 0, 0, 0}; RtToken tk[2]; RtPointer vl[2] = {v, v}; tk[pos] = (char*)t[k]; tk[1 - pos] = (char*)"uniform float ok";
    if(call == 0) RiSurfaceV((char*)"s", 2, tk, vl); else if(call == 1) RiSphere(1, 2, 3, 4, tk[0], vl[0], tk[1], vl[1], RI_NULL); else RiAttribute((char*)"n", tk[0], vl[0], tk[1], vl[1], RI_NULL);
    vs_assert(g.ncalls == 0 && svc->err.n == 1, "a call with an undeclared parameter is reported and ignored"); RiSides(1); vs_assert(g.ncalls == 1, "later calls arrive"); vs_reach("end"); riToRiCxxEnd();
}
// contexts have their own basis and handles; options before any context
static void contexts() {
    float o1[1] = {1}; RiOption((char*)"pre", "uniform float a", o1, RI_NULL); vs_assert(preBegin == 1 && !strcmp(preName, "pre") && preCount == 1, "options before RiBegin are handed to the application");
    Probe ga, gb; ReadSvc* sa = new ReadSvc(wsv); ReadSvc* sb = new ReadSvc(wsv); sa->first = &ga; sb->first = &gb; RiArgs A(wsv); A.zero = true; A.any = true; CApi c;
    void* ca = riToRiCxxBegin(*sa); void* cb = riToRiCxxBegin(*sb); int stepA = 3, stepB = 3; void *la = 0, *lb = 0; bool inA = false; int len = vs_choose(1, 4, "len");
    for(int k = 0; k < len; ++k) switch(vs_choose(0, 3, "op")) {
        case 0: riToRiCxxContext(ca); inA = true; break; case 1: riToRiCxxContext(cb); inA = false; break;
        case 2: (inA ? stepA : stepB) = 1 + k % 2; c.Basis(A.mat(""), 1 + k % 2, A.mat(""), 1 + k % 2); break;
        case 3: c.LightSource("s", "x", Ri::ParamList()); (inA ? la : lb) = c.last; break; }
    Probe& g = inA ? ga : gb; int step = inA ? stepA : stepB; g.w.clear(); Probe want; int nv = 4 + step; Ri::Param p[1]; p[0] = A.param(Ri::TypeSpec(Ri::TypeSpec::Varying, Ri::TypeSpec::Integer), "pp", 9);
    int na = ga.ncalls, nb = gb.ncalls; c.PatchMesh("bicubic", nv, "nonperiodic", nv, "nonperiodic", Ri::ParamList(p, 1)); want.PatchMesh("bicubic", nv, "nonperiodic", nv, "nonperiodic", Ri::ParamList(p, 1));
    vs_assert(ga.ncalls == na + inA && gb.ncalls == nb + !inA, "calls go to the current context"); recSame(want, g, "each context has its own basis");
    ReadSvc* s = inA ? sa : sb; void *mine = inA ? la : lb, *other = inA ? lb : la;
    if(mine) { int e = s->err.n; RiIlluminate(mine, 1); vs_assert(s->err.n == e, "a light of this context"); }
    if(other) { int e = s->err.n; RiIlluminate(other, 1); vs_assert(s->err.n == e + 1, "a light of another context is refused"); }
    riToRiCxxContext(ca); riToRiCxxEnd(); riToRiCxxContext(cb); riToRiCxxEnd(); vs_reach("end");
}
static void record() {
    Probe g, want; svc->first = &g; riToRiCxxBegin(*svc); static const int L[] = {0, 1, 254, 255, 256, 257, 300, 511, 512, 513}; int n = L[vs_choose(0, 9, "length")]; std::string s(n, 'x'); for(int i = 0; i < n; ++i) s[i] = 'a' + i % 23; if(n > 2) { s[1] = '%'; s[2] = 's'; }
    static const char* const ty[] = {"comment", "structure", "verbatim"}; const char* t = ty[vs_choose(0, 2, "type")]; RiArchiveRecord((char*)t, (char*)"%s", s.c_str()); want.ArchiveRecord(t, s.c_str());
    vs_assert(g.ncalls == 1, "the record arrives"); recSame(want, g, "records arrive whole whatever their length");
    g.w.clear(); want.w.clear(); RiArchiveRecord((char*)t, (char*)"a %d %s\n", 42, "b"); want.ArchiveRecord(t, "a 42 b\n"); recSame(want, g, "records are formatted"); vs_reach("end"); riToRiCxxEnd();
}
void harness() {
    nul = new std::ostream((std::streambuf*)0); wsv = createRibWriter(*nul, RibWriterOptions()); svc = new ReadSvc(wsv); int k = vs_case();
    if(k < 4) simple(k, 4, vs_bool("varargs")); else if(k < 8) lists(k & 1, 2, k >= 6); else if(k >= 10 && k < 34) prims((k - 10) / 2, k & 1);
    else switch(k) { case 40: basisScopes(); break; case 41: handles(vs_bool("varargs")); break; case 42: errors(); break; case 43: badTokens(); break; case 44: contexts(); break; case 45: record(); break; }
}
