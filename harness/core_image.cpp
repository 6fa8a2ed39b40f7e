// C16: from micropolygons to displayed pixels (image buffer, buckets, hidden surfaces, filtering).
#include "near.h"
#include "renderer.h"
#include "imagebuffer.h"
#include "micropolygon.h"
#include "iddmanager.h"
#include "shadervariable.h"
#include "csgtree.h"
#include "grid.h"
#include "points.h"
#include <aqsis/tex/filtering/itexturecache.h>
#include "iraytrace.h"
#include <cfloat>
#include <vector>
using namespace Aqsis;
static const int MAXR = 8; static double img[MAXR][MAXR][9]; static int shown[MAXR][MAXR]; static int resX, resY;
static const char* const chan[] = {"Ci", "Oi", "a", "z", "coverage"}; static const int chanSize[] = {3, 3, 1, 1, 1};
struct FakeDD : IqDDManager {
    TqInt Initialise() { return 0; } TqInt Shutdown() { return 0; } TqInt AddDisplay(const TqChar*, const TqChar*, const TqChar*, TqInt, TqInt, TqInt, std::map<std::string, void*>) { return 0; }
    TqInt ClearDisplays() { return 0; } TqInt OpenDisplays(TqInt, TqInt) { return 0; } TqInt CloseDisplays() { return 0; } bool fDisplayNeeds(const TqChar*) { return false; } TqInt Uses() { return 0; } TqInt numDisplayRequests() { return 0; }
    boost::shared_ptr<IqDisplayRequest> displayRequest(TqInt) { return boost::shared_ptr<IqDisplayRequest>(); }
    TqInt DisplayBucket(const CqRegion& r, const IqChannelBuffer* b) {
        vs_assert(b->width() == r.width() && b->height() == r.height(), "bucket data has the size of its region");
        for(int y = r.yMin(); y < r.yMax(); ++y) for(int x = r.xMin(); x < r.xMax(); ++x) { bool in = x >= 0 && y >= 0 && x < resX && y < resY; vs_assert(in, "buckets lie inside the image"); if(!in) continue; ++shown[y][x]; int o = 0;
            for(int c = 0; c < 5; ++c) { const float* p = (*b)(x - r.xMin(), y - r.yMin(), b->getChannelIndex(chan[c])); for(int k = 0; k < chanSize[c]; ++k) img[y][x][o++] = p[k]; } }
        return 0;
    }
};
struct FakeRay : IqRaytrace { void Initialise() {} void AddPrimitive(const boost::shared_ptr<IqSurface>&) {} void Finalise() {} };
namespace Aqsis { IqDDManager* CreateDisplayDriverManager() { return new FakeDD; } IqRaytrace* CreateRaytracer() { return new FakeRay; }
boost::shared_ptr<IqTextureCache> IqTextureCache::create(TqSearchPathCallback) { return boost::shared_ptr<IqTextureCache>(); } }
extern "C" { typedef void (*VsH)(const char*, const char*, __builtin_va_list); VsH TIFFSetErrorHandler(VsH) { return 0; } VsH TIFFSetWarningHandler(VsH) { return 0; } }

struct Quad { double x[4], y[4], z[4], c[4][3], o[4]; bool matte, smooth; double rad; int keys; double kt[3], dx[3], dy[3], dz[3], grow[3]; Quad() : rad(0), keys(0) {}
    Quad at(double t) const { Quad q = *this; if(!keys) return q; int k = 0; while(k < keys - 2 && t > kt[k + 1]) ++k; double f = (t - kt[k]) / (kt[k + 1] - kt[k]); if(t <= kt[0]) f = 0, k = 0; if(t >= kt[keys - 1]) f = 1, k = keys - 2; for(int i = 0; i < 4; ++i) { q.x[i] = (1 - f) * kx(k, i) + f * kx(k + 1, i); q.y[i] = (1 - f) * ky(k, i) + f * ky(k + 1, i); q.z[i] = (1 - f) * (z[i] + dz[k]) + f * (z[i] + dz[k + 1]); } if(rad > 0) q.rad = (1 - f) * (rad + grow[k]) + f * (rad + grow[k + 1]); return q; }
    double kx(int k, int i) const { return x[i] + dx[k] + (rad > 0 ? 0 : i & 1 ? grow[k] : -grow[k]); } double ky(int k, int i) const { return y[i] + dy[k] + (rad > 0 ? 0 : i & 2 ? grow[k] : -grow[k]); } };
static const TqFloat noLod[2] = {-1, -1};
struct FakeGrid : CqMicroPolyGridBase {
    CqShaderVariableVaryingPoint P; CqShaderVariableVaryingColor Ci, Oi; 
    FakeGrid(const Quad& q) : P("P"), Ci("Ci"), Oi("Oi") { P.Initialise(4); Ci.Initialise(4); Oi.Initialise(4); for(int i = 0; i < 4; ++i) { P.SetPoint(CqVector3D(q.x[i], q.y[i], q.z[i]), i); Ci.SetColor(CqColor(q.c[i][0], q.c[i][1], q.c[i][2]), i); Oi.SetColor(CqColor(q.o[i], q.o[i], q.o[i]), i); }
        m_CurrentGridInfo.lodBounds = noLod; m_CurrentGridInfo.matteFlag = q.matte ? SqImageSample::Flag_Matte : 0; m_CurrentGridInfo.usesDataMap = false; m_CurrentGridInfo.useSmoothShading = q.smooth; }
    void Split(long, long, long, long) {} void Shade(bool) {} void TransferOutputVariables() {} void DeleteVariables(bool) {} CqSurface* pSurface() const { return 0; } const IqConstAttributesPtr pAttributes() const { return IqConstAttributesPtr(); }
    bool usesCSG() const { return false; } boost::shared_ptr<CqCSGTreeNode> pCSGNode() const { return boost::shared_ptr<CqCSGTreeNode>(); } TqInt uGridRes() const { return 1; } TqInt vGridRes() const { return 1; } TqUint numMicroPolygons(TqInt, TqInt) const { return 1; } TqUint numShadingPoints(TqInt, TqInt) const { return 4; } bool hasValidDerivatives() const { return false; }
    IqShaderData* pVar(TqInt i) { return i == EnvVars_P ? (IqShaderData*)&P : i == EnvVars_Ci ? (IqShaderData*)&Ci : i == EnvVars_Oi ? (IqShaderData*)&Oi : 0; } IqShaderData* FindStandardVar(const char*) { return 0; } boost::shared_ptr<IqShaderExecEnv> pShaderExecEnv() { return boost::shared_ptr<IqShaderExecEnv>(); }
};
static CqRenderer* R; static int bw, bh, sx, sy, vertical; static double fw, fh, gain = 1; static float crop[4] = {0, 1, 0, 1}; static const char* depthFilter; static bool zmode; static std::vector<Quad> qs;
static float tent(float x, float y, float w, float h) { float a = 1 - (x < 0 ? -x : x) / w, b = 1 - (y < 0 ? -y : y) / h; return a * b; }
static double shutter[2], focus, dofMul;
static void setup() {
    R = new CqRenderer; QSetRenderContext(R); if(vs_case() >= 18) R->BeginMainModeBlock(); IqOptionsPtr o = R->poptWriteCurrent();
    TqInt* ri = o->GetIntegerOptionWrite("System", "Resolution"); ri[0] = resX; ri[1] = resY; ri = o->GetIntegerOptionWrite("System", "PixelSamples"); ri[0] = sx; ri[1] = sy; TqFloat* f = o->GetFloatOptionWrite("System", "FilterWidth"); f[0] = fw; f[1] = fh;
    ri = o->GetIntegerOptionWrite("limits", "bucketsize", 2); ri[0] = bw; ri[1] = bh; ri = o->GetIntegerOptionWrite("Hider", "jitter", 1); ri[0] = 0; o->SetfuncFilter(tent); if(vertical) o->GetStringOptionWrite("render", "bucketorder", 1)[0] = "vertical";
    if(gain != 1) o->GetFloatOptionWrite("System", "Exposure")[0] = gain; if(depthFilter) o->GetStringOptionWrite("Hider", "depthfilter", 1)[0] = depthFilter; o->GetIntegerOptionWrite("System", "DisplayMode")[0] = zmode ? DMode_Z : DMode_RGB;
    f = o->GetFloatOptionWrite("System", "CropWindow"); for(int i = 0; i < 4; ++i) f[i] = crop[i]; if(shutter[1] > 0) { f = o->GetFloatOptionWrite("System", "Shutter"); f[0] = shutter[0]; f[1] = shutter[1]; } if(focus > 0) { R->SetDepthOfFieldData(1, 2, focus); R->SetDepthOfFieldScale(2, 2); dofMul = 2 * 0.5 * 2 * focus / (focus + 2); } R->initialiseCropWindow(); R->pImage()->SetImage();
}
static void addMP(const Quad& q);
static void add(const Quad& q) { qs.push_back(q); addMP(q); }
static void addMP(const Quad& q) {
    if(q.rad > 0 && !q.keys) { CqMicroPolygonPoints* m = new CqMicroPolygonPoints(new FakeGrid(q), 0); m->Initialise(q.rad); boost::shared_ptr<CqMicroPolygon> b(m); R->pImage()->AddMPG(b); return; }
    if(q.rad > 0) { CqMicroPolygonMotionPoints* m = new CqMicroPolygonMotionPoints(new FakeGrid(q), 0); for(int k = 0; k < q.keys; ++k) m->AppendKey(CqVector3D(q.x[0] + q.dx[k], q.y[0] + q.dy[k], q.z[0] + q.dz[k]), q.rad + q.grow[k], q.kt[k]); boost::shared_ptr<CqMicroPolygon> b(m); R->pImage()->AddMPG(b); return; }
    if(q.keys) { boost::shared_ptr<CqMicroPolygonMotion> m(new CqMicroPolygonMotion(new FakeGrid(q), 0)); for(int k = 0; k < q.keys; ++k) { CqVector3D p[4]; for(int i = 0; i < 4; ++i) p[i] = CqVector3D(q.kx(k, i), q.ky(k, i), q.z[i] + q.dz[k]); m->AppendKey(p[0], p[1], p[2], p[3], q.kt[k]); } m->Initialise(); boost::shared_ptr<CqMicroPolygon> b(m); R->pImage()->AddMPG(b); return; } boost::shared_ptr<CqMicroPolygon> mp(new CqMicroPolygon(new FakeGrid(q), 0)); mp->Initialise(); R->pImage()->AddMPG(mp); }
//---- what should be seen
static bool clear; // no sample on an edge
static bool inQuad(const Quad& q, double px, double py) { if(q.rad > 0) { double d = (q.x[0] - px) * (q.x[0] - px) + (q.y[0] - py) * (q.y[0] - py) - q.rad * q.rad; if(clear) vs_assume(d > 0.002 || d < -0.002); return d < 0; } static const int o[] = {0, 1, 3, 2}; bool pos = true, neg = true; for(int i = 0; i < 4; ++i) { int a = o[i], b = o[(i + 1) % 4]; double c = (q.x[b] - q.x[a]) * (py - q.y[a]) - (q.y[b] - q.y[a]) * (px - q.x[a]); if(clear) vs_assume(c > 0.002 || c < -0.002); if(c < 0) pos = false; if(c > 0) neg = false; } return pos || neg; }
struct Res { bool hit, opaque; double c[3], o, z; };
// colour varies over parallelograms only: affine in position
static double at(const Quad& q, double px, double py, const double v[4]) { double ax = q.x[1] - q.x[0], ay = q.y[1] - q.y[0], bx = q.x[2] - q.x[0], by = q.y[2] - q.y[0], dx = px - q.x[0], dy = py - q.y[0], d = ax * by - ay * bx, u = (dx * by - dy * bx) / d, w = (ax * dy - ay * dx) / d; return (1 - u) * (1 - w) * v[0] + u * (1 - w) * v[1] + (1 - u) * w * v[2] + u * w * v[3]; }
static Res look(double px, double py, double t = 0, const CqVector2D* lens = 0) {
    std::vector<Quad> still; for(size_t i = 0; i < qs.size(); ++i) { Quad q = qs[i].at(t); if(lens) for(int k = 0; k < 4; ++k) { double c = dofMul * (q.z[k] < focus ? 1 / q.z[k] - 1 / focus : 1 / focus - 1 / q.z[k]); q.x[k] -= c * lens->x(); q.y[k] -= c * lens->y(); } still.push_back(q); } const std::vector<Quad>& qs = still;
    std::vector<std::pair<double, int> > h; for(size_t i = 0; i < qs.size(); ++i) if(inQuad(qs[i], px, py)) { bool flat = qs[i].z[0] == qs[i].z[1] && qs[i].z[0] == qs[i].z[2] && qs[i].z[0] == qs[i].z[3]; double z = flat ? qs[i].z[0] : at(qs[i], px, py, qs[i].z); if(clear) for(size_t m = 0; m < h.size(); ++m) vs_assume(h[m].first - z > 0.001 || h[m].first - z < -0.001); size_t k = 0; while(k < h.size() && h[k].first < z) ++k; h.insert(h.begin() + k, std::make_pair(z, (int)i)); }
    Res r; r.hit = !h.empty(); r.opaque = false; r.o = 0; r.z = FLT_MAX; double thr = 1; for(int k = 0; k < 3; ++k) r.c[k] = 0;
    std::vector<double> oz; for(size_t i = 0; i < h.size(); ++i) { const Quad& q = qs[h[i].second]; double o = q.smooth && q.o[3] < 1 ? at(q, px, py, q.o) : q.o[0]; if(!q.matte) { for(int k = 0; k < 3; ++k) { double cc[4]; for(int j = 0; j < 4; ++j) cc[j] = q.c[j][k]; r.c[k] += thr * (q.smooth ? at(q, px, py, cc) : cc[0]); } r.o += thr * o; } thr *= 1 - o; if(o >= 1) oz.push_back(h[i].first); }
    r.opaque = !oz.empty(); if(r.opaque) { if(!depthFilter) r.z = oz[0]; else if(depthFilter[2] == 'x') r.z = oz.back(); else if(depthFilter[1] == 'v') { r.z = 0; for(size_t i = 0; i < oz.size(); ++i) r.z += oz[i] / oz.size(); } else if(oz.size() > 1) r.z = (oz[0] + oz[1]) / 2; else r.opaque = false; }
    return r;
}
static void judge() {
    int xm = (int)(fw / 2), ym = (int)(fh / 2); double cw = (int)fw + (fw > (int)fw), ch = (int)fh + (fh > (int)fh); std::vector<Res> res; int W = (resX + 2 * xm) * sx, H = (resY + 2 * ym) * sy;
    if(vs_case() < 10 || vs_case() >= 18) { for(int j = 0; j < H; ++j) for(int i = 0; i < W; ++i) res.push_back(look((i + 0.5) / sx - xm, (j + 0.5) / sy - ym)); }
    else { CqGridSampler gs(sx, sy); CqImagePixel px(sx, sy); for(int j = 0; j < H; ++j) for(int i = 0; i < W; ++i) { CqVector2D at(i / sx - xm, j / sy - ym); px.clear(); px.setSamples(&gs, at); const SqSampleData& d = px.SampleData((j % sy) * sx + i % sx); vs_assert(nearTo(d.position.x(), (i + 0.5) / sx - xm) && nearTo(d.position.y(), (j + 0.5) / sy - ym), "sample positions"); res.push_back(look(d.position.x(), d.position.y(), d.time, focus > 0 ? &d.dofOffset : 0));
#ifdef VSDEBUG
        printf("sample %g %g t %g hit %d c %g\n", d.position.x(), d.position.y(), d.time, res.back().hit, res.back().c[0]);
#endif
        } }
    for(int y = 0; y < resY; ++y) for(int x = 0; x < resX; ++x) {
        bool in = x >= R->cropWindowXMin() && x < R->cropWindowXMax() && y >= R->cropWindowYMin() && y < R->cropWindowYMax(); if(!in) { vs_assert(shown[y][x] <= 1, "no pixel is displayed twice"); continue; }
        vs_assert(shown[y][x] == 1, "every pixel is displayed once"); double g = 0, c[3] = {0, 0, 0}, o = 0, z = 0; bool all = true, any = false;
        for(int j = 0; j < (2 * ym + 1) * sy; ++j) for(int i = 0; i < (2 * xm + 1) * sx; ++i) { double dx = (i + 0.5) / sx - xm - 0.5, dy = (j + 0.5) / sy - ym - 0.5; if(dx < -cw / 2 || dx > cw / 2 || dy < -ch / 2 || dy > ch / 2) continue; double w = tent(dx, dy, cw, ch); g += w; const Res& r = res[(y * sy + j) * W + x * sx + i]; if(r.hit) { any = true; for(int k = 0; k < 3; ++k) c[k] += w * r.c[k]; o += w * r.o; } if(r.opaque) z += w * r.z; else all = false; }
        const double* p = img[y][x];
#ifdef VSDEBUG
        printf("%d %d: got %g %g %g want %g %g %g\n", x, y, p[0], p[3], p[7], gain * c[0] / g, o / g, z / g);
#endif
        for(int k = 0; k < 3; ++k) { vs_assert(nearTo(p[k], gain * c[k] / g), "colour is the filtered colour of the visible surfaces"); vs_assert(nearTo(p[3 + k], o / g), "opacity is the filtered opacity of the visible surfaces"); }
        if(all) vs_assert(nearTo(p[7], z / g), "depth is that of the visible surfaces"); else if(!any) vs_assert(p[7] > 1e30, "an empty pixel is infinitely far");
    }
    vs_reach("end");
}
static Quad rect(double x0, double y0, double x1, double y1, double z, double c, double o) { Quad q; q.matte = q.smooth = false; for(int i = 0; i < 4; ++i) { q.x[i] = i & 1 ? x1 : x0; q.y[i] = i & 2 ? y1 : y0; q.z[i] = z; q.o[i] = o; for(int k = 0; k < 3; ++k) q.c[i][k] = c * (k + 1) / 3; } return q; }
static void dims(int x, int y, int b, int s, double f) { resX = x; resY = y; bw = bh = b; sx = sy = s; fw = fh = f; }
// a surface that becomes one micropolygon, or smaller surfaces, once it is looked at
struct Prim : CqSurface { Quad q; double slack, zslack; int deep; Prim(const Quad& q, double s, double zs, int d) : q(q), slack(s), zslack(zs), deep(d) {}
    void Bound(CqBound* b) const { CqVector3D lo(FLT_MAX, FLT_MAX, FLT_MAX), hi(-FLT_MAX, -FLT_MAX, -FLT_MAX); for(int i = 0; i < 4; ++i) { lo = CqVector3D(std::min<float>(lo.x(), q.x[i] - slack), std::min<float>(lo.y(), q.y[i] - slack), std::min<float>(lo.z(), q.z[i] - zslack)); hi = CqVector3D(std::max<float>(hi.x(), q.x[i] + slack), std::max<float>(hi.y(), q.y[i] + slack), std::max<float>(hi.z(), q.z[i] + zslack)); } b->vecMin() = lo; b->vecMax() = hi; }
    bool Diceable(const CqMatrix&) { return false; } CqMicroPolyGridBase* Dice() { return 0; } bool IsMotionBlurMatch(CqSurface*) { return false; } CqSurface* Clone() const { return 0; } TqUint cUniform() const { return 1; } TqUint cVarying() const { return 4; } TqUint cVertex() const { return 4; } TqUint cFaceVarying() const { return 4; }
    TqInt Split(std::vector<boost::shared_ptr<CqSurface> >& out) { if(!deep) { addMP(q); return 0; } double mid = (q.x[0] + q.x[1]) / 2; for(int h = 0; h < 2; ++h) { Quad e = q; for(int i = 0; i < 4; ++i) if((i & 1) != h) { e.x[i] = mid; e.z[i] = (q.z[i & 2] + q.z[i | 1]) / 2; } boost::shared_ptr<CqSurface> h1(new Prim(e, slack, zslack, deep - 1)); h1->SetSplitCount(SplitCount() + 1); out.push_back(h1); } return 2; } };
static void addPrim(const Quad& q, double slack, int deep, double zs = 0) { qs.push_back(q); R->pImage()->PostSurface(boost::shared_ptr<CqSurface>(new Prim(q, slack, zs, deep))); }
static void run() { R->pImage()->RenderImage(); judge(); }
void harness() {
    switch(vs_case()) {
    case 0: case 9: { // layout: image, bucket, sample and filter sizes, crop windows, bucket orders
        static const int res[][2] = {{1, 1}, {3, 2}, {2, 3}, {3, 3}}, smp[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}}; int r = vs_choose(0, 3, "res"), s = vs_choose(0, 2 + vs_tier(), "smp"); resX = res[r][0]; resY = res[r][1]; sx = smp[s][0]; sy = smp[s][1]; bw = vs_choose(1, 3, "bw"); bh = vs_choose(1, 2, "bh"); fw = vs_choose(1, 3, "fw"); fh = vs_choose(1, 2, "fh"); vertical = vs_case() == 9;
        setup(); add(rect(-0.7, 0.3, 1.6, 1.7, 5, 0.5, 1)); add(rect(0.6, -2, 3.3, 2.6, 3, 0.25, 0.5)); add(rect(0.3, 0.1, 0.4, 0.2, 2, 1, 1)); run(); break; }
    case 1: { // any rectangle
        dims(3, 2, 2, 1 + vs_tier(), vs_choose(1, 2, "f")); setup(); double e[4]; for(int i = 0; i < 4; ++i) e[i] = i < vs_tier() * 2 + 2 ? rin(-1, 4, "edge") : i & 1 ? 2.6 : 0.4; int h = vs_choose(0, 1, "dir"); if(h) { double t = e[0]; e[0] = e[2]; e[2] = t; t = e[1]; e[1] = e[3]; e[3] = t; } vs_assume(e[1] - e[0] > 0.01 && e[3] - e[2] > 0.01);
        for(int i = 0; i < 4; ++i) for(int k = -4 * sx; k < 8 * sx; ++k) { double d = e[i] - (k + 0.5) / sx; vs_assume(d > 0.001 || d < -0.001); } add(rect(e[0], e[2], e[1], e[3], 5, 0.5, 1)); run(); break; }
    case 2: case 3: { // depth order, opacity, matte
        int n = 3 + (vs_tier() && vs_case() == 3); dims(2, 2, 1, 1, 1); setup(); static const double r[][4] = {{-0.2, -0.1, 1.2, 1.8}, {0.3, 0.2, 1.9, 1.3}, {0.1, 0.7, 1.7, 1.9}, {-0.3, 0.4, 2.2, 2.1}}; double z[4];
        for(int i = 0; i < n; ++i) { z[i] = rin(1, 9, "z"); for(int k = 0; k < i; ++k) vs_assume(z[k] - z[i] > 0.001 || z[k] - z[i] < -0.001); double o = vs_case() == 2 ? rin(0, 1, "opacity") : 1; if(vs_case() == 2 && vs_choose(0, 1, "opaque")) o = 1; Quad q = rect(r[i][0], r[i][1], r[i][2], r[i][3], z[i], 1, o); if(vs_case() == 2) q.matte = vs_choose(0, 1, "matte"); for(int k = 0; k < 3; ++k) { double c = rin(0, 1, "c"); for(int j = 0; j < 4; ++j) q.c[j][k] = c; } add(q); } run(); break; }
    case 4: { // shapes and vertex orders
        static const double sh[][8] = {{0.2, 0.3, 2.1, 0.1, 0.4, 1.7, 2.6, 1.9}, {1.3, -0.4, 2.8, 0.9, 0.1, 0.8, 1.2, 2.3}, {0.2, 0.3, 0.2, 0.3, 0.4, 1.7, 2.6, 1.1}, {0.2, 0.3, 2.7, 0.4, 1.3, 1.9, 1.3, 1.9}, {0.2, 0.3, 2.7, 0.4, 0.2, 0.3, 1.3, 1.9}, {0.2, 0.3, 2.7, 0.4, 1.1, 1.8, 2.7, 0.4}};
        dims(3, 2, 2, 2, 1); setup(); int s = vs_choose(0, 5, "shape"), turn = vs_choose(0, 3, "turn"), flip = vs_choose(0, 1, "flip"); static const int ring[] = {0, 1, 3, 2}; Quad q = rect(0, 0, 1, 1, 4, 0.5, 1);
        for(int i = 0; i < 4; ++i) { int from = ring[i], to = ring[flip ? (8 - i - turn) % 4 : (i + turn) % 4]; q.x[to] = sh[s][2 * from]; q.y[to] = sh[s][2 * from + 1]; } add(q); run(); break; }
    case 5: { // interpolation over a parallelogram
        dims(2, 2, 2, 2, 1); setup(); Quad q = rect(0, 0, 1, 1, 4, 0.5, 1); q.smooth = true; bool skew = vs_choose(0, 1, "skew"), zs = vs_choose(0, 1, "depth"); int t = vs_choose(0, 3, "turn"); static const int ring[] = {0, 1, 3, 2}; double X[4], Y[4]; for(int i = 0; i < 4; ++i) { X[i] = 0.125 + (i & 1 ? 1.75 : 0) + (skew && i & 2 ? 0.0625 : 0); Y[i] = 0.125 + (i & 2 ? 1.75 : 0) - (skew && i & 1 ? 0.0625 : 0); }
        for(int i = 0; i < 4; ++i) { q.x[ring[(i + t) % 4]] = X[ring[i]]; q.y[ring[(i + t) % 4]] = Y[ring[i]]; } for(int i = 0; i < 4; ++i) { q.z[i] = zs ? rin(2, 3, "z") : 2 + i / 4.0; for(int k = 0; k < 3; ++k) q.c[i][k] = zs ? (i + k) / 6.0 : k == 1 ? rin(0, 1, "c") : (i + k) % 4 / 4.0; } add(q); add(rect(0.1, 0.1, 1, 2, vs_choose(1, 4, "z2"), 0.5, 1)); vs_assume(qs[1].z[0] != 2 && qs[1].z[0] != 3); run(); break; }
    case 6: { // crop windows
        dims(4, 3, vs_choose(1, 3, "b"), 1, vs_choose(1, 2, "f")); int a = vs_choose(0, 3, "x0"), b = vs_choose(a + 1, 4, "x1"), c = vs_choose(0, 2, "y0"), d = vs_choose(c + 1, 3, "y1"); crop[0] = a / 4.0f; crop[1] = b / 4.0f; crop[2] = c / 3.0f; crop[3] = d / 3.0f; setup(); vs_assert(R->cropWindowXMin() == a && R->cropWindowXMax() == b && R->cropWindowYMin() == c && R->cropWindowYMax() == d, "crop window in pixels"); add(rect(0.2, 0.3, 2.8, 2.2, 5, 0.5, 1)); add(rect(1.2, -1, 3.7, 1.9, 3, 0.25, 0.5)); run(); break; }
    case 7: { // depth images
        zmode = true; static const char* const f[] = {"midpoint", "max", "average"}; depthFilter = f[vs_choose(0, 2, "filter")]; dims(2, 1, 1, 1, 1); setup(); double z[3]; int n = vs_choose(1, 3, "n"); for(int i = 0; i < n; ++i) { z[i] = rin(1, 9, "z"); for(int k = 0; k < i; ++k) vs_assume(z[k] - z[i] > 0.001 || z[k] - z[i] < -0.001); add(rect(0.1, 0.1, 1.9, 0.9, z[i], 0.5, 1)); } run(); break; }
    case 8: { gain = rin(0.5, 2, "gain"); vs_assume(gain > 1.01 || gain < 0.99); dims(2, 2, 2, 1, 1); setup(); add(rect(0.2, 0.3, 1.8, 1.2, 5, 0.5, 1)); run(); break; }
    case 10: case 11: { // motion blur
        clear = true; dims(2, 1, 2 - (vs_case() == 11), 2, 1); shutter[0] = vs_choose(0, 1, "open") ? 0.25 : 0; shutter[1] = vs_choose(0, 1, "close") ? 1 : 0.75; setup(); Quad q = rect(0.3, 0.1, 1.1, 0.9, 5, 0.5, 1); q.keys = vs_choose(2, 3, "keys"); static const double ts[] = {0, 0.5, 1}; for(int k = 0; k < 3; ++k) { q.kt[k] = q.keys == 2 ? k : ts[k]; q.dx[k] = q.dy[k] = q.dz[k] = q.grow[k] = 0; }
        if(vs_case() == 10) { int k = vs_choose(0, q.keys - 1, "key"); if(vs_choose(0, 1, "axis")) q.dy[k] = rin(-2, 2, "dy"); else q.dx[k] = rin(-3, 3, "dx"); } else { int far = vs_choose(1, q.keys - 1, "key"); q.dx[far] = vs_choose(-2, 2, "dx") * 0.7; q.dz[far] = rin(-4, 4, "dz"); q.grow[far] = vs_choose(0, 1, "grow") * 0.3; vs_assume(q.dz[far] > 0.5 || q.dz[far] < -0.5); }
        if(vs_choose(0, 1, "order")) { add(q); add(rect(0.6, 0.05, 1.7, 0.95, 4.6, 0.25, 1)); } else { add(rect(0.6, 0.05, 1.7, 0.95, 4.6, 0.25, 0.5)); add(q); } run(); break; }
    case 14: { // keys that do not span the shutter interval, several lengths moved
        clear = true; dims(4, 1, 2, 2, 1); shutter[0] = 0; shutter[1] = 1; setup(); Quad q = rect(0.3, 0.1, 0.7, 0.4, 5, 0.5, vs_choose(0, 1, "opaque") ? 1 : 0.5); q.keys = 2; static const double ts[][2] = {{0, 0.4}, {0.6, 1}, {0.3, 0.7}, {0, 1}, {-0.5, 1.5}}; int s = vs_choose(0, 4, "span"); bool back = vs_choose(0, 1, "back"); for(int k = 0; k < 2; ++k) { q.kt[k] = ts[s][k]; q.dx[k] = q.dy[k] = q.dz[k] = q.grow[k] = 0; } q.dx[1 - back] = rin(0.5, 3.2, "dx"); add(q); run(); break; }
    case 15: case 16: case 17: { // points: still, moving, out of focus
        clear = true; int moving = vs_case() == 16; if(moving) dims(2, 1, 1, 2, 1); else dims(3, 2, 2, 1, 1); if(vs_case() == 17) focus = vs_choose(2, 4, "focus"); if(moving) { static const double sh[][2] = {{0, 1}, {0.25, 0.75}, {-0.5, 0.5}}; int s = vs_tier() ? vs_choose(0, 2, "shutter") : 2 * vs_choose(0, 1, "shutter"); shutter[0] = sh[s][0]; shutter[1] = sh[s][1]; } setup(); Quad q = rect(1.4, 0.7, 1.5, 0.9, 5, 0.5, 1); q.rad = 0.8; if(moving) { q.x[0] = 0.9; q.y[0] = 0.55; q.rad = 0.45; } double m = rin(-1.5, 1.5, "m"); int what = vs_choose(0, 2, "what");
        if(!moving) { if(what == 0) q.x[0] += m; else if(what == 1) q.y[0] += m; else q.rad += m / 2.5; } else { q.keys = vs_choose(2, 3, "keys"); static const double ts[][3] = {{0, 1, 1}, {0, 0.5, 1}, {0.3, 0.6, 0.9}}; int t = q.keys == 2 ? vs_choose(0, 1, "span") * 2 : vs_choose(1, 2, "span"), key = vs_choose(0, q.keys - 1, "key"); for(int k = 0; k < q.keys; ++k) { q.kt[k] = ts[t][k]; q.dx[k] = q.dy[k] = q.dz[k] = q.grow[k] = 0; } if(what == 0) q.dx[key] = m * 2; else if(what == 1) q.dy[key] = m; else q.grow[key] = (m + 1) / 4; }
        if(vs_case() == 17) { double z = vs_choose(1, 3, "z") * 1.5; for(int k = 0; k < 4; ++k) q.z[k] = z; } if(moving && !vs_tier()) { for(int k = 0; k < 4; ++k) q.o[k] = 0.5; add(q); } else if(vs_choose(0, 1, "order")) { add(q); add(rect(0.6, 0.05, 1.7, 0.95, 3.5, 0.25, 1)); } else { add(rect(0.6, 0.05, 1.7, 0.95, 4.6, 0.25, 0.5)); add(q); } run(); break; }
    case 12: case 13: { // depth of field
        clear = true; dims(2, 2, 2 - (vs_case() == 13), 2, 1); focus = vs_case() == 13 && !vs_tier() ? 2 * vs_choose(1, 2, "focus") : vs_choose(2, 4, "focus"); double z = vs_case() == 13 ? 1 + 2 * vs_choose(0, 2, "z") : vs_choose(1, 6, "z"); if(vs_case() == 13) shutter[1] = 1; setup(); double w = vs_case() == 13 ? vs_choose(1, 1 + vs_tier(), "w") * 0.8 : rin(0.2, 2, "w"); Quad q = rect(0.3, 0.2, 0.3 + w, 1.7, z, 0.5, 1);
        if(vs_case() == 13) { double dx = rin(-0.6, 0.6, "dx"), dz = 2 * vs_choose(0, 1, "dz"); q.keys = 2; for(int k = 0; k < 2; ++k) { q.kt[k] = k; q.dx[k] = k * dx; q.dy[k] = 0; q.dz[k] = k * dz; q.grow[k] = 0; } } if(vs_choose(0, 1, "order")) { add(q); add(rect(0.6, 0.05, 1.7, 0.95, 3.5, 0.25, 1)); } else { add(rect(0.6, 0.05, 1.7, 0.95, 3.5, 0.25, 0.5)); add(q); } run(); break; }
    case 23: { // what depth filters need is not hidden
        zmode = true; static const char* const f[] = {"midpoint", "max", "average", 0}; depthFilter = f[vs_choose(0, 3, "filter")]; dims(2, 1, vs_choose(1, 2, "bucket"), 1, 1); setup(); double z[4]; int n = vs_choose(2, 3 + vs_tier(), "n"), first = vs_choose(0, 1, "drawn"); for(int i = 0; i < n; ++i) { z[i] = rin(1, 9, "z"); for(int k = 0; k < i; ++k) vs_assume(z[k] - z[i] > 0.01 || z[k] - z[i] < -0.01); Quad q = rect(i == 1 ? 0.9 : 0.1, 0.1, 1.9, 0.9, z[i], 0.5, 1); if(i < first) add(q); else addPrim(q, 0, i & 1); } run(); break; }
    case 22: { // clipping planes, crop windows, wide filters
        clear = true; static const float cw[][4] = {{0, 1, 0, 1}, {0.5, 1, 0, 0.5}, {0.25, 0.75, 0.5, 1}}; int c = vs_choose(0, 2, "crop"); for(int i = 0; i < 4; ++i) crop[i] = cw[c][i]; dims(4, 2, 1 + vs_choose(0, 1, "bucket"), 1, 1 + 2 * vs_choose(0, 1, "filter")); setup(); static const double rs[][4] = {{0.2, 0.3, 1.8, 1.4}, {1.2, -0.6, 2.7, 0.8}, {-0.7, 1.2, 0.8, 2.7}, {3.1, 0.1, 4.8, 2.9}, {2.2, 1.1, 2.8, 1.9}, {-0.9, -0.9, 4.9, 2.9}}; int r = vs_choose(0, 5, "at");
        double z = rin(1, 9, "z"), tilt = vs_choose(0, 1, "clip") ? 0 : rin(-0.5, 0.5, "tilt"); Quad q = rect(rs[r][0], rs[r][1], rs[r][2], rs[r][3], z, 0.75, 1); if(tilt != 0) { q.z[1] += tilt; q.z[3] += tilt; } else { vs_assume(z - 2 > 0.01 || z - 2 < -0.01); vs_assume(z - 6 > 0.01 || z - 6 < -0.01); TqFloat* f = R->poptWriteCurrent()->GetFloatOptionWrite("System", "Clipping"); f[0] = 2; f[1] = 6; R->pImage()->SetImage(); } int bnd = vs_choose(0, 2, "bound"), deep = vs_tier() ? vs_choose(0, 2, "deep") : (c + r + bnd) % 3; if(bnd == 1 && tilt == 0) vs_assume(z > 2 && z < 6); if(bnd == 2) { boost::shared_ptr<CqNamedParameterList> l(new CqNamedParameterList("displacementbound")); CqParameterTypedUniform<TqFloat, type_float, TqFloat>* b = new CqParameterTypedUniform<TqFloat, type_float, TqFloat>("sphere", 1); b->pValue()[0] = 0.4; l->AddParameter(b); R->pattrWriteCurrent()->AddAttribute(l); } addPrim(q, bnd == 1 ? 0.4 : bnd ? -0.4 : 0, deep, bnd == 1 ? 1.5 : bnd ? -0.4 : 0); if(tilt == 0 && (z < 2 || z > 6)) qs.pop_back(); run(); break; }
    case 18: case 19: case 20: case 21: { // surfaces that may be hidden: across buckets, within one bucket of many samples; at any depth, with any edge
        clear = true; bool one = vs_case() & 1, edges = vs_case() >= 20; if(one) { static const int g[][3] = {{2, 2, 1}, {1, 2, 2}, {3, 1, 1}, {1, 3, 1}, {2, 1, 2}, {3, 2, 1}}; int k = vs_choose(0, edges && !vs_tier() ? 2 : 5, "grid"); resX = g[k][0]; resY = g[k][1]; sx = sy = g[k][2]; bw = bh = 4; fw = fh = 1 + 2 * vs_choose(0, vs_tier(), "filter"); } else { int k = vs_choose(0, vs_tier() ? 3 : edges ? 0 : 2, "size"); resX = 2 + (k == 1); resY = 2 + (k == 2); sx = sy = 1; bw = bh = 1; fw = fh = k == 3 ? 3 : 1; } setup();
        int ax = vs_choose(0, resX - 1, "hx"), ay = vs_choose(0, resY - 1, "hy"), aw = vs_choose(1, resX - ax, "hw"), ah = vs_choose(1, resY - ay, "hh"), second = vs_choose(0, 1 + vs_tier(), "second"); double in = one ? 0.2 : -0.2; add(rect(ax - 0.2, ay - 0.2, ax + aw - in, ay + ah - in, 5, 0.25, 1)); if(second) add(rect(-0.1, -0.1, one ? 1.1 : resX - 0.9, resY + 0.1, 3, 0.5, second == 1 ? 1 : 0.5));
        double z = second ? 4 : 7, v[4] = {-0.3, -0.4, resX + 0.3, resY + 0.2}; int loose = 0; if(edges) { int e = vs_choose(0, 3, "edge"); loose = vs_tier() ? vs_choose(0, 1, "loose") : (e + second) & 1; v[e] = e < 2 ? rin(-1, (e ? resY : resX) - 0.1, "at") : rin(0.1, (e == 3 ? resY : resX) + 1, "at"); } else { z = rin(1, 9, "z"); vs_assume(z - 5 > 0.01 || z - 5 < -0.01); vs_assume(z - 3 > 0.01 || z - 3 < -0.01); loose = vs_choose(0, 1, "loose"); if(vs_choose(0, 1, "small")) { v[0] = resX - 1.2; v[1] = 0.3; v[3] = resY - 0.4; } }
        addPrim(rect(v[0], v[1], v[2], v[3], z, 0.75, 1), loose * 0.3, loose, loose * 0.7); run(); break; }
    }
}
