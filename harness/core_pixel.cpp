// C13: combining the surfaces seen at a pixel sample.  C14: solid modelling (CSG).
#include "near.h"
#include "imagepixel.h"
#include "csgtree.h"
#include "optioncache.h"
#include <cfloat>
#include <vector>
using namespace Aqsis;
typedef boost::shared_ptr<CqCSGTreeNode> Node;
static CqImagePixel* pix;
static void setHit(SqImageSample& s, const double d[7], unsigned flags) { TqFloat* p = pix->sampleHitData(s); for(int i = 0; i < 7; ++i) p[i] = (TqFloat)d[i]; p[Sample_Coverage] = 1; p[Sample_Alpha] = 1; s.flags = flags; }
struct Hit { double v[7]; bool matte; };
static Hit anyHit(bool mayMatte, bool gray) { Hit h; for(int i = 0; i < 6; ++i) h.v[i] = gray && i % 3 ? h.v[i - i % 3] : rin(0, 1, i < 3 ? "C" : "O"); h.v[6] = rin(1, 100, "z"); h.matte = mayMatte && vs_bool("matte"); return h; }
static void over(int kind) { // 0: colour and opacity, 1: depth
    int n = vs_choose(0, kind ? 3 : vs_tier() ? 4 : 3, "hits"); bool occ = vs_bool("occluding"); int xs = 2, which = vs_choose(0, 1, "sample"); vs_assume(n || occ);
    pix = new CqImagePixel(xs, 1); pix->clear(); std::vector<Hit> hs; SqSampleData& sd = pix->SampleData(which);
    for(int i = 0; i < n; ++i) { Hit h = anyHit(kind == 0, kind == 1); for(size_t k = 0; k < hs.size(); ++k) vs_assume(h.v[6] != hs[k].v[6]); hs.push_back(h); SqImageSample s; pix->allocateHitData(s); setHit(s, h.v, SqImageSample::Flag_Valid | (h.matte ? SqImageSample::Flag_Matte : 0)); sd.data.push_back(s); }
    Hit oc; double occlZ = FLT_MAX;
    if(occ) { oc = anyHit(kind == 0, kind == 1); for(int i = 3; i < 6; ++i) oc.v[i] = 1; for(size_t k = 0; k < hs.size(); ++k) vs_assume(oc.v[6] > hs[k].v[6]); setHit(sd.occludingHit, oc.v, SqImageSample::Flag_Valid | (oc.matte ? SqImageSample::Flag_Matte : 0)); occlZ = sd.occlZ = (TqFloat)oc.v[6]; hs.push_back(oc); }
    static const EqDepthFilter fs[] = {Filter_Min, Filter_Max, Filter_MidPoint, Filter_Average}; int f = kind ? vs_choose(0, 3, "filter") : 0; float th = kind ? rin(0.25, 1, "threshold") : 1.0f;
    int ch = kind ? (n + f) % 4 : 3; /* the channel that decides, or all */ pix->Combine(fs[f], CqColor(ch == 0 || ch == 3 ? th : 0, ch == 1 || ch == 3 ? th : 0, ch == 2 || ch == 3 ? th : 0));
    for(size_t i = 0; i < hs.size(); ++i) for(size_t j = i + 1; j < hs.size(); ++j) if(hs[j].v[6] < hs[i].v[6]) { Hit t = hs[i]; hs[i] = hs[j]; hs[j] = t; }
    const SqImageSample& r = pix->occludingHit(which); vs_assert(r.flags & SqImageSample::Flag_Valid, "a hit sample stays valid"); vs_assert(!(pix->occludingHit(1 - which).flags & SqImageSample::Flag_Valid), "a sample without hits stays empty");
    const TqFloat* p = pix->sampleHitData(r);
    if(kind == 0) {
        for(int c = 0; c < 3; ++c) {
            // front to back; a matte surface hides what lies behind it and adds nothing
            double col = 0, op = 0, through = 1; for(size_t i = 0; i < hs.size(); ++i) { if(!hs[i].matte) { col += through * hs[i].v[c]; op += through * hs[i].v[3 + c]; } through *= 1 - hs[i].v[3 + c]; }
            vs_assert(nearTo(p[Sample_Red + c], col), "colours composite in depth order"); vs_assert(nearTo(p[Sample_ORed + c], op), "opacities composite in depth order");
        }
    } else {
        std::vector<double> z; for(size_t i = 0; i < hs.size(); ++i) if(hs[i].v[3] >= th) z.push_back(hs[i].v[6]);
        double got = p[Sample_Depth];
        if(n) switch(f) {
            case 0: vs_assert(z.empty() ? got == occlZ : nearTo(got, z[0]), "min depth is that of the nearest opaque surface"); break;
            case 1: vs_assert(z.empty() ? got == FLT_MAX : nearTo(got, z.back()), "max depth is that of the farthest opaque surface"); break;
            case 2: if(hs.size() == 1) vs_assert(got == FLT_MAX, "one surface has no midpoint"); else if(z.size() >= 2) vs_assert(nearTo(got, (z[0] + z[1]) / 2), "midpoint depth is halfway between the two nearest opaque surfaces"); else if(!occ) vs_assert(got > 1e30, "fewer than two opaque surfaces have no midpoint"); break;
            case 3: { if(z.empty()) { vs_assert(got == FLT_MAX, "no opaque surface, no average depth"); break; } double t = 0; for(size_t i = 0; i < z.size(); ++i) t += z[i]; vs_assert(nearTo(got, t / z.size()), "average depth is the mean of the opaque surfaces"); break; }
        } else vs_assert(nearTo(got, oc.v[6]), "a single opaque surface keeps its depth");
    }
    vs_reach("end");
}
static void life() { // clearing, reuse and validity
    pix = new CqImagePixel(vs_choose(1, 2, "x"), vs_choose(1, 2, "y")); int n = pix->numSamples(); vs_assert(n == pix->XSamples() * pix->YSamples(), "sample count");
    for(int round = 0; round < 2; ++round) {
        pix->clear(); vs_assert(!pix->hasValidSamples(), "a cleared pixel has no valid samples"); int which = vs_choose(0, n - 1, "which"); int hits = vs_choose(0, 2, "hits"); double v[7];
        for(int i = 0; i < n; ++i) { vs_assert(pix->SampleData(i).data.empty() && pix->SampleData(i).occlZ == FLT_MAX && !(pix->occludingHit(i).flags & SqImageSample::Flag_Valid), "a cleared sample is empty and infinitely far"); for(int k = 0; k < 7; ++k) v[k] = 10 * i + k; setHit(pix->occludingHit(i), v, SqImageSample::Flag_Valid); }
        for(int k = 0; k < hits; ++k) { SqImageSample s; pix->allocateHitData(s); for(int q = 0; q < 7; ++q) v[q] = q == 6 ? 0.25 * k : 0; setHit(s, v, SqImageSample::Flag_Valid); pix->SampleData(which).data.push_back(s); }
        for(int i = 0; i < n; ++i) for(int k = 0; k < 7; ++k) vs_assert(pix->sampleHitData(pix->occludingHit(i))[k] == 10 * i + k, "hits have separate storage");
        pix->markHasValidSamples(); vs_assert(pix->hasValidSamples(), "valid mark"); pix->Combine(Filter_Min, CqColor(1, 1, 1));
        for(int i = 0; i < n; ++i) for(int k = 0; k < 3; ++k) vs_assert(pix->sampleHitData(pix->occludingHit(i))[k] == 10 * i + k || (i == which && hits), "combining one sample leaves the others alone");
    }
    vs_reach("end");
}
//---- CSG: which walls of a solid remain
struct T { int op; std::vector<int> kids; }; // op -1: primitive
static std::vector<T> tr; static std::vector<Node> nodes;
static int add(int op) { static const char* const nm[] = {"primitive", "union", "intersection", "difference"}; CqString s(nm[op + 1]); nodes.push_back(CqCSGTreeNode::CreateNode(s)); T t; t.op = op; tr.push_back(t); return (int)tr.size() - 1; }
static void kid(int p, int c) { tr[p].kids.push_back(c); nodes[p]->AddChild(nodes[c]); }
static bool inside(int n, const std::vector<bool>& prim) {
    if(tr[n].op < 0) return prim[n]; bool r = tr[n].op == 1; if(tr[n].op == 2) { r = inside(tr[n].kids[0], prim); for(size_t i = 1; i < tr[n].kids.size(); ++i) if(inside(tr[n].kids[i], prim)) r = false; return r; }
    for(size_t i = 0; i < tr[n].kids.size(); ++i) { bool k = inside(tr[n].kids[i], prim); if(tr[n].op == 0) r = r || k; else r = r && k; } return r;
}
static void csg(int shape) {
    nodes.reserve(8); tr.reserve(8); std::vector<int> prims; int root = add(vs_choose(0, 2, "op"));
    if(shape == 0) { int k = vs_choose(1, 3, "kids"); for(int i = 0; i < k; ++i) { int c = add(-1); kid(root, c); prims.push_back(c); } }
    else { // one child is an operation of its own
        int pos = vs_choose(0, 1, "pos"); for(int i = 0; i < 2; ++i) if(i == pos) { int m = add(vs_choose(0, 2, "op2")); kid(root, m); for(int q = 0; q < 2; ++q) { int c = add(-1); kid(m, c); prims.push_back(c); } } else { int c = add(-1); kid(root, c); prims.push_back(c); } }
    int root2 = -1; if(shape == 2) { root2 = add(0); int c = add(-1); kid(root2, c); prims.push_back(c); }
    pix = new CqImagePixel(1, 1); pix->clear(); SqSampleData& sd = pix->SampleData(0); int n = vs_choose(1, shape == 0 ? 5 + vs_tier() : 4 + vs_tier(), "walls"); std::vector<int> seq;
    std::vector<bool> st(tr.size(), false); std::vector<bool> keep; std::vector<bool> cnt(tr.size(), false);
    for(int i = 0; i < n; ++i) {
        int w = vs_choose(-1, (int)prims.size() - 1, "wall"); double v[7] = {0, 0, 0, 0, 0, 0, 1.0 + i}; v[0] = 100 + i; SqImageSample s; pix->allocateHitData(s); setHit(s, v, SqImageSample::Flag_Valid); pix->sampleHitData(s)[Sample_Coverage] = 1.0f + i; if(w >= 0) s.csgNode = nodes[prims[w]]; sd.data.push_back(s); seq.push_back(w);
        if(w < 0) { keep.push_back(true); continue; }
        int r = root2 >= 0 && w == (int)prims.size() - 1 ? root2 : root; bool before = inside(r, st); st[prims[w]] = !st[prims[w]]; cnt[prims[w]] = !cnt[prims[w]]; keep.push_back(inside(r, st) != before);
    }
    for(size_t i = 0; i < prims.size(); ++i) vs_assume(!cnt[prims[i]]); // seen from outside: every solid entered is left
    pix->Combine(Filter_Min, CqColor(1, 1, 1));
    std::vector<int> left; for(int i = 0; i < n; ++i) if(keep[i]) left.push_back(i);
    bool ok = sd.data.size() == left.size(); if(ok) for(size_t i = 0; i < left.size(); ++i) ok = ok && pix->sampleHitData(sd.data[i])[Sample_Coverage] == 1.0f + left[i];
    vs_assert(ok, "exactly the walls of the combined solid remain"); for(size_t i = 0; i < sd.data.size(); ++i) vs_assert(!sd.data[i].csgNode, "remaining walls are resolved"); vs_reach("end");
}
void harness() { switch(vs_case()) { case 0: over(0); break; case 1: over(1); break; case 2: life(); break; default: csg(vs_case() - 10); } }
