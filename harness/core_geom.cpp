// C23: splitting and dicing of patches and their variables leave the surface and its variables where they were.
#include "near.h"
#include "renderer.h"
#include "iddmanager.h"
#include "iraytrace.h"
#include "shadervariable.h"
#include "patch.h"
#include "nurbs.h"
#include "polygon.h"
#include "parameters.h"
#include <aqsis/tex/filtering/itexturecache.h>
#include <vector>
#include <string>
using namespace Aqsis;
struct FakeDD : IqDDManager {
    TqInt Initialise() { return 0; } TqInt Shutdown() { return 0; } TqInt AddDisplay(const TqChar*, const TqChar*, const TqChar*, TqInt, TqInt, TqInt, std::map<std::string, void*>) { return 0; }
    TqInt ClearDisplays() { return 0; } TqInt OpenDisplays(TqInt, TqInt) { return 0; } TqInt CloseDisplays() { return 0; } bool fDisplayNeeds(const TqChar*) { return false; } TqInt Uses() { return 0; } TqInt numDisplayRequests() { return 0; }
    boost::shared_ptr<IqDisplayRequest> displayRequest(TqInt) { return boost::shared_ptr<IqDisplayRequest>(); } TqInt DisplayBucket(const CqRegion&, const IqChannelBuffer*) { return 0; }
};
struct FakeRay : IqRaytrace { void Initialise() {} void AddPrimitive(const boost::shared_ptr<IqSurface>&) {} void Finalise() {} };
namespace Aqsis { IqDDManager* CreateDisplayDriverManager() { return new FakeDD; } IqRaytrace* CreateRaytracer() { return new FakeRay; }
boost::shared_ptr<IqTextureCache> IqTextureCache::create(TqSearchPathCallback) { return boost::shared_ptr<IqTextureCache>(); } }
extern "C" { typedef void (*VsH)(const char*, const char*, __builtin_va_list); VsH TIFFSetErrorHandler(VsH) { return 0; } VsH TIFFSetWarningHandler(VsH) { return 0; } }

static CqRenderer* R;
static void setup() { R = new CqRenderer; QSetRenderContext(R); R->BeginMainModeBlock(); }
typedef boost::shared_ptr<CqSurface> Surf;
enum { tFloat, tPoint, tVector, tNormal, tColor, tHPoint, nTypes };
static const EqVariableType vt[] = {type_float, type_point, type_vector, type_normal, type_color, type_hpoint}; static const int dims[] = {1, 3, 3, 3, 3, 4};
static int typeOf(CqParameter* p) { for(int i = 0; i < nTypes; ++i) if(vt[i] == p->Type()) return i; return -1; }
// the components of a value
static float* comps(CqParameter* p, int i, int a = 0) { switch(typeOf(p)) { case tFloat: return static_cast<CqFloatParameter*>(p)->pValue(i) + a; case tColor: return &static_cast<CqColorParameter*>(p)->pValue(i)[a][0]; case tHPoint: return &static_cast<CqHPointParameter*>(p)->pValue(i)[a][0]; default: return &static_cast<CqPointParameter*>(p)->pValue(i)[a][0]; } }
static int idx(int t) { return vt[t]; }
static CqParameter* make(EqVariableClass c, int t, const char* name, int n, int count = 1) {
    bool ar = count > 1; CqParameter* p = 0;
    switch(c) { case class_constant: p = (ar ? gVariableCreateFuncsConstantArray : gVariableCreateFuncsConstant)[idx(t)](name, count); break; case class_uniform: p = (ar ? gVariableCreateFuncsUniformArray : gVariableCreateFuncsUniform)[idx(t)](name, count); break;
    case class_varying: p = (ar ? gVariableCreateFuncsVaryingArray : gVariableCreateFuncsVarying)[idx(t)](name, count); break; case class_vertex: p = (ar ? gVariableCreateFuncsVertexArray : gVariableCreateFuncsVertex)[idx(t)](name, count); break;
    case class_facevarying: p = (ar ? gVariableCreateFuncsFaceVaryingArray : gVariableCreateFuncsFaceVarying)[idx(t)](name, count); break; default: p = (ar ? gVariableCreateFuncsFaceVertexArray : gVariableCreateFuncsFaceVertex)[idx(t)](name, count); }
    p->SetSize(n); return p; }
// values of a variable as given
struct Vals { int t, n, count; std::vector<double> v; double at(int i, int k, int a = 0) const { return v[(i * count + a) * dims[t] + k]; } };
static Vals fill(CqParameter* p, int n, bool weights = false) { Vals r; r.t = typeOf(p); r.n = n; r.count = p->Count(); for(int i = 0; i < n; ++i) for(int a = 0; a < r.count; ++a) for(int k = 0; k < dims[r.t]; ++k) { float f = r.t == tHPoint && k == 3 ? weights ? 1 + 0.25 * ((i * 3 + a) % 5) : 1 : rin(-4, 4, "value"); comps(p, i, a)[k] = f; r.v.push_back(f); } return r; }
static double bilin(double a, double b, double c, double d, double s, double t) { return (a * (1 - s) + b * s) * (1 - t) + (c * (1 - s) + d * s) * t; }
static double bern(int i, double t) { double u = 1 - t; return i == 0 ? u * u * u : i == 1 ? 3 * u * u * t : i == 2 ? 3 * u * t * t : t * t * t; }
// component k of the variable at (s,t): over 16 control values, four corners or one
static double valueAt(const Vals& v, int k, double s, double t, int a = 0) { if(v.n == 16) { double r = 0; for(int j = 0; j < 4; ++j) for(int i = 0; i < 4; ++i) r += bern(i, s) * bern(j, t) * v.at(4 * j + i, k, a); return r; } if(v.n == 4) return bilin(v.at(0, k, a), v.at(1, k, a), v.at(2, k, a), v.at(3, k, a), s, t); return v.at(0, k, a); }
static Vals vals(CqParameter* p, int n) { Vals r; r.t = typeOf(p); r.n = n; r.count = p->Count(); for(int i = 0; i < n; ++i) for(int a = 0; a < r.count; ++a) for(int k = 0; k < dims[r.t]; ++k) r.v.push_back(r.t != tHPoint ? comps(p, i, a)[k] : k < 3 ? comps(p, i, a)[k] / comps(p, i, a)[3] : 1); return r; } // homogeneous points count by their place
static int sizeOf(CqParameter* p, bool cubic) { switch(p->Class()) { case class_constant: case class_uniform: return 1; case class_vertex: case class_facevertex: return cubic ? 16 : 4; default: return 4; } }
static CqParameter* corners(const char* n, double a, double b, double c, double d) { CqParameter* p = make(class_varying, tFloat, n, 4); comps(p, 0)[0] = a; comps(p, 1)[0] = b; comps(p, 2)[0] = c; comps(p, 3)[0] = d; return p; }
static double con(double x) { return x; }
// p, over the unit square, is v over [s0,s1]x[t0,t1]
static void same(CqParameter* p, int n, const Vals& v, double s0, double s1, double t0, double t1) { vs_assert(typeOf(p) == v.t && p->Count() == v.count, "a variable keeps its type"); Vals w = vals(p, n);
    for(int a = 0; a < v.count; ++a) for(int k = 0; k < dims[v.t]; ++k) for(int j = 0; j < 4; ++j) for(int i = 0; i < 4; ++i) { if((v.n < 16 || n < 16) && (i == 1 || i == 2 || j == 1 || j == 2)) continue; double s = i / 3.0, t = j / 3.0;
        vs_assert(nearTo(valueAt(w, k, s, t, a), valueAt(v, k, s0 + (s1 - s0) * s, t0 + (t1 - t0) * t, a)), "a piece has the values of the whole"); } }
static IqShaderData* target(int t, int n) { IqShaderData* d = t == tFloat ? (IqShaderData*)new CqShaderVariableVaryingFloat("r") : t == tColor ? (IqShaderData*)new CqShaderVariableVaryingColor("r") : t == tVector ? (IqShaderData*)new CqShaderVariableVaryingVector("r") : t == tNormal ? (IqShaderData*)new CqShaderVariableVaryingNormal("r") : (IqShaderData*)new CqShaderVariableVaryingPoint("r"); d->Initialise(n); return d; }
static double dicedAt(IqShaderData* d, int t, int i, int k) { if(t == tFloat) { float f; d->GetFloat(f, i); return f; } if(t == tColor) { CqColor c; d->GetColor(c, i); return c[k]; } CqVector3D v; if(t == tVector) d->GetVector(v, i); else if(t == tNormal) d->GetNormal(v, i); else d->GetPoint(v, i); return v[k]; }
static void checkDice(IqShaderData* d, const Vals& v, int nu, int nv, int a = 0) { for(int j = 0; j <= nv; ++j) for(int i = 0; i <= nu; ++i) for(int k = 0; k < (v.t == tFloat ? 1 : 3); ++k) { double s = double(i) / nu, t = double(j) / nv, e = valueAt(v, k, s, t, a); if(v.t == tHPoint) e /= valueAt(v, 3, s, t, a); vs_assert(nearTo(dicedAt(d, v.t, j * (nu + 1) + i, k), e), "diced values lie on the surface"); } }
static int pickType() { return vs_choose(0, nTypes - 1, "type"); }
// a patch with one variable of each class and the parameters that tell its pieces apart
struct Known { std::vector<std::string> name; std::vector<Vals> v; void add(CqSurface* s, CqParameter* p, int n, bool weights = false) { s->AddPrimitiveVariable(p); name.push_back(p->strName()); v.push_back(fill(p, n, weights)); } };
static double pieces(const std::vector<Surf>& a, const Known& k, bool cubic) { double area = 0; std::vector<std::pair<double, double> > seen;
    for(size_t i = 0; i < a.size(); ++i) { CqSurface* s = a[i].get(); CqParameter *ps = s->FindUserParam("s"), *pt = s->FindUserParam("t"); vs_assert(ps && pt, "pieces keep the variables"); if(!ps || !pt) return 0;
        double s0 = comps(ps, 0)[0], s1 = comps(ps, 1)[0], t0 = comps(pt, 0)[0], t1 = comps(pt, 2)[0]; vs_assert(s0 < s1 && t0 < t1 && comps(ps, 2)[0] == s0 && comps(ps, 3)[0] == s1 && comps(pt, 1)[0] == t0 && comps(pt, 3)[0] == t1, "a piece is a rectangle of the parameters");
        for(size_t j = 0; j < seen.size(); ++j) vs_assert(!(seen[j].first == s0 && seen[j].second == t0), "pieces do not overlap"); seen.push_back(std::make_pair(s0, t0)); area += (s1 - s0) * (t1 - t0);
        for(size_t j = 0; j < k.v.size(); ++j) { CqParameter* p = s->FindUserParam(k.name[j].c_str()); vs_assert(p != 0, "pieces keep the variables"); if(p) same(p, sizeOf(p, cubic), k.v[j], s0, s1, t0, t1); } }
    return area; }
// basis matrices of the standard, rows from the cube of the parameter down
static const double mat[5][4][4] = {{{-1, 3, -3, 1}, {3, -6, 3, 0}, {-3, 3, 0, 0}, {1, 0, 0, 0}}, {{-1/6., 3/6., -3/6., 1/6.}, {3/6., -1, 3/6., 0}, {-3/6., 0, 3/6., 0}, {1/6., 4/6., 1/6., 0}}, {{-0.5, 1.5, -1.5, 0.5}, {1, -2.5, 2, -0.5}, {-0.5, 0, 0.5, 0}, {0, 1, 0, 0}}, {{2, 1, -2, 1}, {-3, -2, 3, -1}, {0, 1, 0, 0}, {1, 0, 0, 0}}, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}};
static const int steps[] = {3, 1, 1, 2, 4};
static double weight(int b, int i, double t) { return ((mat[b][0][i] * t + mat[b][1][i]) * t + mat[b][2][i]) * t + mat[b][3][i]; }
static void setBasis(int which, int b) { CqMatrix* m = R->pattrWriteCurrent()->GetMatrixAttributeWrite("System", "Basis"); static RtBasis* const all[] = {&RiBezierBasis, &RiBSplineBasis, &RiCatmullRomBasis, &RiHermiteBasis, &RiPowerBasis}; m[which] = CqMatrix(*all[b]); m[which].SetfIdentity(false); R->pattrWriteCurrent()->GetIntegerAttributeWrite("System", "BasisStep")[which] = steps[b]; }
static double tc[4][2];
static void texture() { TqFloat* f = R->pattrWriteCurrent()->GetFloatAttributeWrite("System", "TextureCoordinates"); for(int i = 0; i < 8; ++i) { f[i] = rin(-2, 2, "st"); tc[i / 2][i & 1] = f[i]; } }
static const int useUVST = (1 << EnvVars_u) | (1 << EnvVars_v) | (1 << EnvVars_s) | (1 << EnvVars_t);
struct CubicMesh : CqSurfacePatchMeshBicubic { CubicMesh(int a, int b, bool c, bool d) : CqSurfacePatchMeshBicubic(a, b, c, d) {} TqInt Uses() const { return useUVST; } };
struct LinearMesh : CqSurfacePatchMeshBilinear { LinearMesh(int a, int b, bool c, bool d) : CqSurfacePatchMeshBilinear(a, b, c, d) {} TqInt Uses() const { return useUVST; } };
// four corners of the cell of a piece, from its u and v
static bool cell(CqSurface* s, int pu, int pv, int& i, int& j) { CqParameter *u = s->FindUserParam("u"), *v = s->FindUserParam("v"); vs_assert(u && v && s->FindUserParam("s") && s->FindUserParam("t"), "pieces have default parameters"); if(!u || !v || !s->FindUserParam("s") || !s->FindUserParam("t")) return false;
    double u0 = comps(u, 0)[0] * pu, v0 = comps(v, 0)[0] * pv; j = int(u0 + 0.5); i = int(v0 + 0.5); for(int c = 0; c < 4; ++c) { double su = double(j + (c & 1)) / pu, sv = double(i + c / 2) / pv; vs_assert(nearTo(comps(u, c)[0], su, 0.001) && nearTo(comps(v, c)[0], sv, 0.001), "u and v run over the mesh");
        vs_assert(nearTo(comps(s->FindUserParam("s"), c)[0], bilin(tc[0][0], tc[1][0], tc[2][0], tc[3][0], su, sv)) && nearTo(comps(s->FindUserParam("t"), c)[0], bilin(tc[0][1], tc[1][1], tc[2][1], tc[3][1], su, sv)), "texture coordinates run over the mesh"); }
    return true; }
// B-splines
typedef std::vector<double> Knots;
static double N(const Knots& k, int i, int p, double u, double last) { if(p == 0) return (u == last ? k[i] < last && k[i + 1] == last : u >= k[i] && u < k[i + 1]) ? 1 : 0; double r = 0, d = k[i + p] - k[i]; if(d > 0) r += (u - k[i]) / d * N(k, i, p - 1, u, last); d = k[i + p + 1] - k[i + 1]; if(d > 0) r += (k[i + p + 1] - u) / d * N(k, i + 1, p - 1, u, last); return r; }
struct Spline { int ou, ov, nu, nv; Knots ku, kv; double u0() const { return ku[ou - 1]; } double u1() const { return ku[nu]; } double v0() const { return kv[ov - 1]; } double v1() const { return kv[nv]; } };
static double at(const Spline& s, const Vals& v, int c, double u, double w, int a = 0) { double r = 0; for(int j = 0; j < s.nv; ++j) { double bv = N(s.kv, j, s.ov - 1, w, s.v1()); if(bv == 0) continue; for(int i = 0; i < s.nu; ++i) { double bu = N(s.ku, i, s.ou - 1, u, s.u1()); if(bu != 0) r += bv * bu * v.at(j * s.nu + i, c, a); } } return r; }
static double placeAt(const Spline& s, const Vals& v, int c, double u, double w, int a = 0) { double r = at(s, v, c, u, w, a); return v.t == tHPoint ? r / at(s, v, 3, u, w, a) : r; }
static Spline splineOf(CqSurfaceNURBS* n) { Spline s; s.ou = n->uOrder(); s.ov = n->vOrder(); s.nu = n->cuVerts(); s.nv = n->cvVerts(); for(size_t i = 0; i < n->auKnots().size(); ++i) s.ku.push_back(n->auKnots()[i]); for(size_t i = 0; i < n->avKnots().size(); ++i) s.kv.push_back(n->avKnots()[i]); return s; }
static Vals raw(CqParameter* p, int n) { Vals r; r.t = typeOf(p); r.n = n; r.count = p->Count(); for(int i = 0; i < n; ++i) for(int a = 0; a < r.count; ++a) for(int k = 0; k < dims[r.t]; ++k) r.v.push_back(comps(p, i, a)[k]); return r; }
static Knots knots(int order, int n, int form) { // clamped: even, uneven, with a double knot; not clamped
    Knots k; int in = n - order; if(form == 3) { for(int i = 0; i < n + order; ++i) k.push_back(i); return k; } for(int i = 0; i < order; ++i) k.push_back(0); for(int i = 0; i < in; ++i) k.push_back(form == 0 ? i + 1 : form == 1 ? i + 0.5 : (i + 2) / 2); double e = form == 0 ? in + 1 : form == 1 ? in + 2 : 2; for(int i = 0; i < order; ++i) k.push_back(e); return k; }
static boost::shared_ptr<CqSurfaceNURBS> nurbs(int form, int more) { boost::shared_ptr<CqSurfaceNURBS> n(new CqSurfaceNURBS); int ou = vs_choose(2, 4, "uorder"), ov = vs_choose(2, 3, "vorder"), nu = ou + vs_choose(0, more, "umore"), nv = ov + vs_choose(0, 1, "vmore"); n->Init(ou, ov, nu, nv); Knots a = knots(ou, nu, form), b = knots(ov, nv, form == 2 ? 1 : form); for(size_t i = 0; i < a.size(); ++i) n->auKnots()[i] = a[i]; for(size_t i = 0; i < b.size(); ++i) n->avKnots()[i] = b[i]; n->Setumin(a[ou - 1]); n->Setumax(a[nu]); n->Setvmin(b[ov - 1]); n->Setvmax(b[nv]); return n; }
// q is a part of s, with the same values at the same parameters
static double part(CqSurfaceNURBS* q, const Spline& s, const Known& k) { Spline w = splineOf(q); vs_assert(w.ou == s.ou && w.ov == s.ov && w.nu >= w.ou && w.nv >= w.ov && (int)w.ku.size() == w.nu + w.ou && (int)w.kv.size() == w.nv + w.ov, "pieces are splines of the same order"); if(!(w.nu >= w.ou && w.nv >= w.ov && (int)w.ku.size() == w.nu + w.ou && (int)w.kv.size() == w.nv + w.ov)) return 0;
    vs_assert(w.u0() < w.u1() && w.v0() < w.v1() && w.u0() >= s.u0() && w.u1() <= s.u1() && w.v0() >= s.v0() && w.v1() <= s.v1(), "pieces lie in the surface");
    for(size_t j = 0; j < k.v.size(); ++j) { CqParameter* p = q->FindUserParam(k.name[j].c_str()); vs_assert(p != 0, "pieces keep the variables"); if(!p || p->Class() != class_vertex) continue; vs_assert((int)p->Size() == w.nu * w.nv, "pieces have all their control values"); if((int)p->Size() != w.nu * w.nv) continue; Vals v = raw(p, w.nu * w.nv);
        for(int c = 0; c < dims[v.t] && c < 3; ++c) for(int y = 0; y < 3; ++y) for(int x = 0; x < 4; ++x) { double u = w.u0() + (w.u1() - w.u0()) * x / 3, t = w.v0() + (w.v1() - w.v0()) * y / 2; if(u > s.u0() && u < s.u1() && std::count(s.ku.begin(), s.ku.end(), u) >= s.ou) continue; /* a tear */ vs_assert(nearTo(placeAt(w, v, c, u, t), placeAt(s, k.v[j], c, u, t)), "a piece has the values of the whole"); } }
    return (w.u1() - w.u0()) * (w.v1() - w.v0()); }
// polygons
static const double px[] = {0, 2, 3.5, 4, 3, 1.5, -0.5, -1}, py[] = {0, 0.2, 1, 2.5, 3.8, 4, 3, 1.2}; // convex, all different
struct Poly : CqSurfacePolygon { Poly(int n) : CqSurfacePolygon(n) {} TqInt Uses() const { return useUVST | (1 << EnvVars_N); } };
struct Pts : CqPolygonPoints { Pts(int a, int b, int c) : CqPolygonPoints(a, b, c) {} TqInt Uses() const { return useUVST | (1 << EnvVars_N); } };
static CqParameter* places(int n) { CqParameter* p = make(class_vertex, tHPoint, "P", n); for(int i = 0; i < n; ++i) { float* f = comps(p, i); f[0] = px[i]; f[1] = py[i]; f[2] = 2; f[3] = 1; } return p; }
static void corner(CqParameter* p, int c, bool extra, const Vals& v, const int at[3]) { for(int a = 0; a < v.count; ++a) for(int k = 0; k < dims[v.t] && k < 3; ++k) { double w = extra ? v.at(at[1], k, a) - v.at(at[0], k, a) + v.at(at[2], k, a) : v.at(at[0], k, a), h = v.t == tHPoint ? comps(p, c, a)[3] : 1; vs_assert(nearTo(comps(p, c, a)[k], w * h), "corners of a piece have the values of the polygon there"); } }
// the patches make up the face whose vertices are at[]; fv is the first of its face-varying values
static void face(const std::vector<Surf>& out, const std::vector<int>& at, int fv, int which, const Known& k) { int n = at.size(); std::vector<int> count(n * n, 0);
    for(size_t q = 0; q < out.size(); ++q) { CqSurfacePatchBilinear* s = static_cast<CqSurfacePatchBilinear*>(out[q].get()); bool tri = s->fHasPhantomFourthVertex(); static const int round[] = {0, 1, 3, 2}, trio[] = {0, 1, 2}; int m = tri ? 3 : 4, lv[4]; CqParameter* P = s->FindUserParam("P"); vs_assert(P && P->Size() == 4, "pieces keep the variables"); if(!P || P->Size() != 4) return;
        for(int c = 0; c < m; ++c) { const float* f = comps(P, tri ? trio[c] : round[c]); lv[c] = -1; for(int i = 0; i < n; ++i) if(f[0] == (float)px[at[i]] && f[1] == (float)py[at[i]] && f[2] == 2) lv[c] = i; vs_assert(lv[c] >= 0, "corners of a piece are vertices of the polygon"); if(lv[c] < 0) return; }
        for(int c = 0; c < m; ++c) ++count[lv[c] * n + lv[(c + 1) % m]];
        for(size_t j = 0; j < k.v.size(); ++j) { CqParameter* p = s->FindUserParam(k.name[j].c_str()); vs_assert(p && typeOf(p) == k.v[j].t && p->Count() == k.v[j].count, "pieces keep the variables"); if(!p) return; EqVariableClass cl = p->Class(); bool per = cl == class_facevarying || cl == class_facevertex; if(cl == class_uniform || cl == class_constant) { int z[3] = {cl == class_uniform ? which : 0, 0, 0}; corner(p, 0, false, k.v[j], z); continue; }
            for(int c = 0; c < 4; ++c) { int z[3]; bool extra = tri && c == 3; for(int i = 0; i < 3; ++i) { int l = extra ? lv[i] : lv[tri ? c : c == 2 ? 3 : c == 3 ? 2 : c]; z[i] = per ? fv + l : at[l]; } corner(p, c, extra, k.v[j], z); } }
        CqParameter *ps = s->FindUserParam("s"), *pt = s->FindUserParam("t"), *pn = s->FindUserParam("N"); vs_assert(ps && pt && pn, "pieces have default parameters"); if(!(ps && pt && pn)) return; for(int c = 0; c < 4; ++c) { const float* f = comps(P, c); vs_assert(nearTo(comps(ps, c)[0], f[0] / f[3]) && nearTo(comps(pt, c)[0], f[1] / f[3]), "default texture coordinates are the places in object space"); const float* nn = comps(pn, c); vs_assert(nearTo(nn[0], 0) && nearTo(nn[1], 0) && nearTo(nn[2] * nn[2], 1), "the normal is that of the plane"); } }
    for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) { int c = count[a * n + b], d = count[b * n + a]; if(b == (a + 1) % n) vs_assert(c == 1 && d == 0, "every edge of the polygon is an edge of one piece"); else if(a != (b + 1) % n) vs_assert(c == d && c <= 1, "inner edges are shared by two pieces"); } }
void harness() {
    setup();
    switch(vs_case()) {
    case 0: case 1: { // dicing of variables: plain, arrays
        int t = pickType(), nu = vs_choose(1, 4, "nu"), nv = nu == 4 ? vs_choose(0, 1, "long") * 11 + 1 : vs_choose(1, 3, "nv"); if(nu == 4) nu = 13 - nv; int n = (nu + 1) * (nv + 1); static const EqVariableClass cl[] = {class_varying, class_facevarying, class_uniform, class_constant, class_vertex, class_facevertex};
        int ci = vs_case() ? vs_choose(0, 1, "class") : vs_choose(0, 5, "class"); int count = vs_case() ? vs_choose(2, 3, "count") : 1; CqParameter* p = make(cl[ci], t, "foo", ci == 2 || ci == 3 ? 1 : 4, count); Vals v = fill(p, ci == 2 || ci == 3 ? 1 : 4, false); CqSurfacePatchBilinear s;
        if(vs_case()) { int a = vs_choose(0, count - 1, "element"); IqShaderData* d = target(t, n); p->DiceOne(nu, nv, d, &s, a); checkDice(d, v, nu, nv, a); } else { IqShaderData* d = target(t, n); p->Dice(nu, nv, d, &s); checkDice(d, v, nu, nv); } vs_reach("end"); break; }
    case 2: { // bicubic dicing
        int t = pickType(), nu = vs_choose(1, 3 + vs_tier(), "nu"), nv = vs_choose(1, 2 + 2 * vs_tier(), "nv"); CqParameter* p = make(class_vertex, t, "foo", 16); Vals v = fill(p, 16); CqSurfacePatchBicubic s; IqShaderData* d = target(t, (nu + 1) * (nv + 1)); p->Dice(nu, nv, d, &s); checkDice(d, v, nu, nv); vs_reach("end"); break; }
    case 3: case 4: { // splitting a patch
        bool cubic = vs_case() == 3; Surf s(cubic ? (CqSurface*)new CqSurfacePatchBicubic : (CqSurface*)new CqSurfacePatchBilinear); Known k; int t = pickType(), ar = vs_choose(1, 2, "array"); k.add(s.get(), make(class_vertex, tHPoint, "P", cubic ? 16 : 4), cubic ? 16 : 4); k.add(s.get(), make(class_vertex, t, "a", cubic ? 16 : 4, ar), cubic ? 16 : 4); k.add(s.get(), make(class_varying, t, "b", 4, ar), 4); k.add(s.get(), make(class_facevarying, t, "c", 4, ar), 4); k.add(s.get(), make(class_uniform, t, "d", 1, ar), 1); k.add(s.get(), make(class_constant, t, "e", 1, ar), 1);
        s->AddPrimitiveVariable(corners("s", 0, 1, 0, 1)); s->AddPrimitiveVariable(corners("t", 0, 0, 1, 1)); s->SetSplitDir(vs_choose(0, 1, "dir") ? CqSurface::SplitDir_U : CqSurface::SplitDir_V); bool four = cubic && vs_choose(0, 1, "undiceable"); bool phantom = !cubic && vs_choose(0, 1, "phantom"); if(four) s->ForceUndiceable(); if(phantom) static_cast<CqSurfacePatchBilinear*>(s.get())->SetfHasPhantomFourthVertex(true);
        std::vector<Surf> out; int n = s->Split(out); vs_assert(n == (int)out.size(), "the number of pieces is returned"); for(size_t i = 0; i < out.size(); ++i) vs_assert(!out[i]->IsUndiceable(), "pieces may be diced"); vs_assert(pieces(out, k, cubic) == (phantom ? 0.75 : 1), "pieces cover the patch");
        if(phantom) for(size_t i = 0; i < out.size(); ++i) { CqSurfacePatchBilinear* b = static_cast<CqSurfacePatchBilinear*>(out[i].get()); double s0 = comps(b->FindUserParam("s"), 0)[0], t0 = comps(b->FindUserParam("t"), 0)[0]; vs_assert(!(s0 > 0 && t0 > 0), "nothing is kept beyond the diagonal"); vs_assert(b->fHasPhantomFourthVertex() == (s0 > 0 || t0 > 0), "pieces on the diagonal are triangles"); }
        vs_reach("end"); break; }
    case 5: { // a cubic mesh in any bases
        int bu = vs_choose(0, 4, "ubasis"), bv = vs_choose(0, 4, "vbasis"), pu = vs_choose(1, 2, "pu"), pv = vs_choose(1, 2, "pv"), t = vs_tier() ? pickType() : (bu * 5 + bv * 2 + pu + 2 * pv) % nTypes; bool wu = vs_choose(0, 1, "uwrap"), wv = vs_tier() ? vs_choose(0, 1, "vwrap") : (bu + 2 * bv + pu + pv / 2 + wu) & 1; int ar = 1 + (pu + pv + bu + bv) % 2; setBasis(0, bu); setBasis(1, bv); texture();
        int nu = wu ? pu * steps[bu] : 4 + (pu - 1) * steps[bu], nv = wv ? pv * steps[bv] : 4 + (pv - 1) * steps[bv], vu = pu + !wu, vv = pv + !wv; boost::shared_ptr<CubicMesh> m(new CubicMesh(nu, nv, wu, wv)); vs_assert((int)m->cUniform() == pu * pv && (int)m->cVarying() == vu * vv && (int)m->cVertex() == nu * nv, "numbers of values of a mesh");
        Known k; k.add(m.get(), make(class_vertex, t, "a", nu * nv, ar), nu * nv); k.add(m.get(), make(class_varying, t, "b", vu * vv, ar), vu * vv); k.add(m.get(), make(class_uniform, t, "d", pu * pv, ar), pu * pv); k.add(m.get(), make(class_constant, t, "e", 1, ar), 1);
        m->ConvertToBezierBasis(); std::vector<Surf> out; int n = m->Split(out); vs_assert(n == pu * pv && (int)out.size() == n, "one patch for each part of the mesh"); std::vector<char> seen(pu * pv, 0);
        for(size_t q = 0; q < out.size(); ++q) { int i, j; CqSurface* s = out[q].get(); if(!cell(s, pu, pv, i, j)) return; vs_assert(!seen[i * pu + j], "every part once"); seen[i * pu + j] = 1;
            CqParameter *a = s->FindUserParam("a"), *b = s->FindUserParam("b"), *d = s->FindUserParam("d"), *e = s->FindUserParam("e"); vs_assert(a && b && d && e, "pieces keep the variables"); if(!(a && b && d && e)) return; Vals w = vals(a, 16);
            for(int z = 0; z < ar; ++z) for(int c = 0; c < dims[t] && c < 3; ++c) { for(int y = 0; y < 4; ++y) for(int x = 0; x < 4; ++x) { double su = x / 3.0, sv = y / 3.0, want = 0; for(int r = 0; r < 4; ++r) for(int o = 0; o < 4; ++o) want += weight(bv, r, sv) * weight(bu, o, su) * k.v[0].at((i * steps[bv] + r) % nv * nu + (j * steps[bu] + o) % nu, c, z); vs_assert(nearTo(valueAt(w, c, su, sv, z), want), "patches are the parts of the spline surface"); }
                for(int o = 0; o < 4; ++o) vs_assert(nearTo(comps(b, o, z)[c], k.v[1].at((i + o / 2) % vv * vu + (j + (o & 1)) % vu, c, z)), "corner values of the mesh"); vs_assert(nearTo(comps(d, 0, z)[c], k.v[2].at(i * pu + j, c, z)), "values of the patches of the mesh"); vs_assert(nearTo(comps(e, 0, z)[c], k.v[3].at(0, c, z)), "constant values"); } }
        vs_reach("end"); break; }
    case 6: { // a bilinear mesh
        int nu = vs_choose(2, 3, "nu"), nv = vs_choose(2, 3, "nv"), t = pickType(); bool wu = vs_choose(0, 1, "uwrap"), wv = vs_choose(0, 1, "vwrap"); texture(); int ar = vs_choose(1, 2, "array"), pu = nu - !wu, pv = nv - !wv; boost::shared_ptr<LinearMesh> m(new LinearMesh(nu, nv, wu, wv)); vs_assert((int)m->cUniform() == pu * pv && (int)m->cVarying() == nu * nv && (int)m->cVertex() == nu * nv, "numbers of values of a mesh");
        Known k; k.add(m.get(), make(class_vertex, t, "a", nu * nv, ar), nu * nv); k.add(m.get(), make(class_varying, t, "b", nu * nv, ar), nu * nv); k.add(m.get(), make(class_uniform, t, "d", pu * pv, ar), pu * pv); k.add(m.get(), make(class_constant, t, "e", 1, ar), 1);
        std::vector<Surf> out; int n = m->Split(out); vs_assert(n == pu * pv && (int)out.size() == n, "one patch for each part of the mesh"); std::vector<char> seen(pu * pv, 0);
        for(size_t q = 0; q < out.size(); ++q) { int i, j; CqSurface* s = out[q].get(); if(!cell(s, pu, pv, i, j)) return; vs_assert(!seen[i * pu + j], "every part once"); seen[i * pu + j] = 1; CqParameter *a = s->FindUserParam("a"), *b = s->FindUserParam("b"), *d = s->FindUserParam("d"), *e = s->FindUserParam("e"); vs_assert(a && b && d && e, "pieces keep the variables"); if(!(a && b && d && e)) return;
            for(int z = 0; z < ar; ++z) for(int c = 0; c < dims[t]; ++c) { for(int o = 0; o < 4; ++o) { int at = (i + o / 2) % nv * nu + (j + (o & 1)) % nu; vs_assert(nearTo(comps(a, o, z)[c], k.v[0].at(at, c, z)) && nearTo(comps(b, o, z)[c], k.v[1].at(at, c, z)), "corner values of the mesh"); } vs_assert(nearTo(comps(d, 0, z)[c], k.v[2].at(i * pu + j, c, z)), "values of the patches of the mesh"); vs_assert(nearTo(comps(e, 0, z)[c], k.v[3].at(0, c, z)), "constant values"); } }
        vs_reach("end"); break; }
    case 9: { // rational patches
        int nu = vs_choose(2, 3, "nu"), cubic = vs_choose(0, 1, "cubic"), n = cubic ? 16 : 4; CqParameter* p = make(class_vertex, tHPoint, "P", n); Vals v; Surf s(cubic ? (CqSurface*)new CqSurfacePatchBicubic : (CqSurface*)new CqSurfacePatchBilinear); v = fill(p, n, true); IqShaderData* d = target(tHPoint, (nu + 1) * 3); p->Dice(nu, 2, d, s.get()); checkDice(d, v, nu, 2); vs_reach("end"); break; }
    case 10: { // dicing splines
        int t = pickType(); boost::shared_ptr<CqSurfaceNURBS> n = nurbs(vs_choose(0, 2, "knots"), 2); Spline s = splineOf(n.get()); CqParameter* p = make(class_vertex, t, "foo", s.nu * s.nv); Vals v = fill(p, s.nu * s.nv, vs_choose(0, t == tHPoint, "weights")); int du = vs_choose(1, 3, "nu"), dv = 2; IqShaderData* d = target(t, (du + 1) * (dv + 1)); p->Dice(du, dv, d, n.get());
        for(int j = 0; j <= dv; ++j) for(int i = 0; i <= du; ++i) for(int k = 0; k < dims[t] && k < 3; ++k) vs_assert(nearTo(dicedAt(d, t, j * (du + 1) + i, k), placeAt(s, v, k, s.u0() + (s.u1() - s.u0()) * i / du, s.v0() + (s.v1() - s.v0()) * j / dv)), "diced values lie on the surface"); vs_reach("end"); break; }
    case 11: case 12: case 13: { // splitting, clamping, taking apart
        int form = vs_case() == 12 ? 3 : vs_choose(0, vs_case() == 11 ? 2 : 0, "knots"); boost::shared_ptr<CqSurfaceNURBS> n = nurbs(form, vs_case() == 11 ? 1 + (vs_tier() || form == 2) : 2); Spline s = splineOf(n.get()); int t = vs_case() != 12 && !vs_tier() ? (s.nu + s.nv * 2 + form) % nTypes : pickType(); Known k; bool wt = vs_choose(0, 1, "weights"); k.add(n.get(), make(class_vertex, tHPoint, "P", s.nu * s.nv), s.nu * s.nv, wt); if(!wt) k.add(n.get(), make(class_vertex, t, "a", s.nu * s.nv), s.nu * s.nv);
        if(vs_case() == 12) { n->Clamp(); vs_assert(nearTo(part(n.get(), s, k), (s.u1() - s.u0()) * (s.v1() - s.v0()), 0.001), "clamping keeps the whole"); Spline w = splineOf(n.get()); for(int i = 0; i < w.ou; ++i) vs_assert(w.ku[i] == w.u0() && w.ku[w.nu + i] == w.u1(), "clamped"); for(int i = 0; i < w.ov; ++i) vs_assert(w.kv[i] == w.v0() && w.kv[w.nv + i] == w.v1(), "clamped"); vs_reach("end"); break; }
        bool seg = vs_case() == 13; int pu = seg ? s.nu - s.ou + 1 : 1, pv = seg ? s.nv - s.ov + 1 : 1; Known o; if(!wt) { o.add(n.get(), make(class_varying, t, "b", (pu + 1) * (pv + 1)), (pu + 1) * (pv + 1)); o.add(n.get(), make(class_uniform, t, "d", pu * pv), pu * pv); o.add(n.get(), make(class_constant, t, "e", 1), 1); }
        n->SetfPatchMesh(seg); bool undice = !seg && vs_choose(0, 1, "undiceable"); if(undice) n->ForceUndiceable(); n->SetSplitDir(vs_choose(0, 1, "dir") ? CqSurface::SplitDir_U : CqSurface::SplitDir_V); if(seg && pu * pv == 1) return; std::vector<Surf> out; int r = n->Split(out); vs_assert(r == (int)out.size() && r == (seg ? pu * pv : undice ? 4 : 2), "the number of pieces"); for(size_t i = 0; i < out.size(); ++i) vs_assert(!out[i]->IsUndiceable(), "pieces may be diced"); double area = 0;
        for(size_t q = 0; q < out.size(); ++q) { CqSurfaceNURBS* e = static_cast<CqSurfaceNURBS*>(out[q].get()); area += part(e, s, k); Spline w = splineOf(e); for(size_t z = 0; z < q; ++z) { Spline y = splineOf(static_cast<CqSurfaceNURBS*>(out[z].get())); vs_assert(!(y.u0() == w.u0() && y.v0() == w.v0()), "pieces do not overlap"); }
            double ru = (s.u1() - s.u0()) / pu, rv = (s.v1() - s.v0()) / pv; int j = int((w.u0() - s.u0()) / ru + 0.01), i = int((w.v0() - s.v0()) / rv + 0.01); if(i < 0 || j < 0 || i >= pv || j >= pu) continue;
            if(!wt) { CqParameter *b = e->FindUserParam("b"), *d = e->FindUserParam("d"), *c = e->FindUserParam("e"); vs_assert(b && d && c, "pieces keep the variables"); if(!(b && d && c)) return; for(int x = 0; x < dims[t]; ++x) { for(int z = 0; z < 4; ++z) { double su = ((z & 1 ? w.u1() : w.u0()) - s.u0()) / ru - j, sv = ((z / 2 ? w.v1() : w.v0()) - s.v0()) / rv - i; const Vals& v = o.v[0]; int g = i * (pu + 1) + j; vs_assert(nearTo(comps(b, z)[x], bilin(v.at(g, x), v.at(g + 1, x), v.at(g + pu + 1, x), v.at(g + pu + 2, x), su, sv)), "corner values of the pieces"); }
                vs_assert(nearTo(comps(d, 0)[x], o.v[1].at(i * pu + j, x)) && nearTo(comps(c, 0)[x], o.v[2].at(0, x)), "uniform and constant values of the pieces"); } } }
        vs_assert(nearTo(area, (s.u1() - s.u0()) * (s.v1() - s.v0()), 0.001), "pieces cover the surface"); vs_reach("end"); break; }
    case 14: { // polygons
        int n = vs_choose(3, 6 + 2 * vs_tier(), "n"), t = pickType(), ar = vs_choose(1, 2, "array"); R->pattrWriteCurrent()->GetIntegerAttributeWrite("System", "Orientation")[0] = vs_choose(0, 1, "outside"); boost::shared_ptr<Poly> s(new Poly(n)); s->AddPrimitiveVariable(places(n)); Known k; k.add(s.get(), make(class_vertex, t, "a", n, ar), n); k.add(s.get(), make(class_varying, t, "b", n, ar), n); k.add(s.get(), make(class_facevarying, t, "c", n, ar), n); k.add(s.get(), make(class_uniform, t, "d", 1, ar), 1); k.add(s.get(), make(class_constant, t, "e", 1, ar), 1); k.add(s.get(), make(class_facevertex, t, "f", n, ar), n);
        CqBound b; s->Bound(&b); for(int i = 0; i < n; ++i) vs_assert(b.vecMin().x() <= (float)px[i] && b.vecMax().x() >= (float)px[i] && b.vecMin().y() <= (float)py[i] && b.vecMax().y() >= (float)py[i], "the bound encloses the polygon"); std::vector<Surf> out; int r = s->Split(out); vs_assert(r == (int)out.size(), "the number of pieces is returned"); std::vector<int> at; for(int i = 0; i < n; ++i) at.push_back(i); face(out, at, 0, 0, k); vs_reach("end"); break; }
    case 15: { // meshes of polygons
        int cnt[3] = {vs_choose(3, 5, "n0"), vs_choose(3, 5, "n1"), vs_choose(3, 4, "n2")}, step = vs_choose(0, 3, "step"), bad = vs_choose(-1, 1, "bad"), t = (cnt[0] + step + bad + 7) % nTypes, total = cnt[0] + cnt[1] + cnt[2], ar = 1 + (step & 1); boost::shared_ptr<Pts> ps(new Pts(8, 3, total)); ps->AddPrimitiveVariable(places(8)); Known k; k.add(ps.get(), make(class_vertex, t, "a", 8, ar), 8); k.add(ps.get(), make(class_varying, t, "b", 8, ar), 8); k.add(ps.get(), make(class_facevarying, t, "c", total, ar), total); k.add(ps.get(), make(class_uniform, t, "d", 3, ar), 3); k.add(ps.get(), make(class_constant, t, "e", 1, ar), 1);
        std::vector<int> ix; for(int f = 0; f < 3; ++f) for(int i = 0; i < cnt[f]; ++i) ix.push_back((f * (step + 1) + i + (i > 1 ? step / 2 : 0)) % 8); std::vector<int> given = ix; int badAt = vs_choose(0, 2, "badat"); if(bad >= 0) given[(bad ? cnt[0] : 0) + badAt] = vs_choose(0, 1, "how") ? 8 : -1;
        boost::shared_ptr<CqSurfacePointsPolygons> s(new CqSurfacePointsPolygons(ps, 3, cnt, &given[0])); CqBound b; s->Bound(&b); for(int i = 0; i < 8; ++i) vs_assert(b.vecMin().x() <= (float)px[i] && b.vecMax().x() >= (float)px[i] && b.vecMin().y() <= (float)py[i] && b.vecMax().y() >= (float)py[i], "the bound encloses the polygon");
        std::vector<Surf> out; int r = s->Split(out); vs_assert(r == (int)out.size() && r == 3 - (bad >= 0), "one polygon for each face with valid indices"); if(r != (int)out.size()) return; int o = 0, first = 0; for(int f = 0; f < 3; ++f) { if(f == bad) { first += cnt[f]; continue; } if(o >= r) break; std::vector<Surf> pieces; int pr = out[o++]->Split(pieces); vs_assert(pr == (int)pieces.size(), "the number of pieces is returned"); face(pieces, std::vector<int>(ix.begin() + first, ix.begin() + first + cnt[f]), first, f, k); first += cnt[f]; } vs_reach("end"); break; }
    case 7: { // bounds enclose the surface
        int kind = vs_choose(0, 2, "kind"), axis = vs_choose(0, 2, "axis"), n = kind == 0 ? 16 : kind == 1 ? 4 : 6; Surf s(kind == 0 ? (CqSurface*)new CqSurfacePatchBicubic : kind == 1 ? (CqSurface*)new CqSurfacePatchBilinear : (CqSurface*)new CqSurfacePatchMeshBilinear(3, 2)); CqParameter* p = make(class_vertex, tHPoint, "P", n); s->AddPrimitiveVariable(p);
        int at = vs_choose(0, n - 1, "vertex"), at2 = (at + 5) % n; for(int i = 0; i < n; ++i) for(int k = 0; k < 4; ++k) comps(p, i)[k] = k == 3 ? 1 : (k == axis && (i == at || i == at2)) ? rin(-9, 9, "p") : (i * 7 + k * 3) % 5 - 2; CqBound b; s->Bound(&b);
        for(int i = 0; i < n; ++i) for(int k = 0; k < 3; ++k) vs_assert(notAbove(b.vecMin()[k], comps(p, i)[k]) && notAbove(comps(p, i)[k], b.vecMax()[k]), "the bound encloses the control points"); vs_reach("end"); break; }
    case 8: { // moving to another space
        int t = pickType(); Surf s(new CqSurfacePatchBilinear); Known k; static const EqVariableClass cl[] = {class_vertex, class_varying, class_uniform, class_constant}; int c = vs_choose(0, 3, "class"), n = c < 2 ? 4 : 1, ar = vs_choose(1, 2, "array"); k.add(s.get(), make(cl[c], t, "a", n, ar), n); double m[3][4][4]; CqMatrix M[3];
        for(int q = 0; q < 3; ++q) { for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { m[q][i][j] = j == 3 ? i == 3 : ((q + 1) * 7 + i * 5 + j * 3) % 11 / 4. - 1; M[q][i][j] = m[q][i][j]; } M[q].SetfIdentity(false); if(q) for(int j = 0; j < 3; ++j) { m[q][3][j] = 0; M[q][3][j] = 0; } }
        s->Transform(M[0], M[1], M[2]); CqParameter* p = s->FindUserParam("a"); vs_assert(p != 0, "keeps the variables"); if(!p) return; int q = t == tNormal ? 1 : t == tVector ? 2 : 0; bool moved = t != tFloat && t != tColor;
        for(int z = 0; z < ar; ++z) for(int i = 0; i < n; ++i) for(int c = 0; c < dims[t]; ++c) { double e = 0; if(!moved) e = k.v[0].at(i, c, z); else for(int r = 0; r < 4; ++r) e += m[q][r][c] * (r < dims[t] ? k.v[0].at(i, r, z) : 1); vs_assert(nearTo(comps(p, i, z)[c], e), "values move with their space"); } vs_reach("end"); break; }
    }
}
