// C15: sample patterns.  Random draws are arbitrary values of their range (stub below).
#include "near.h"
#include "grid.h"
#include "multijitter.h"
#include <aqsis/math/random.h>
using namespace Aqsis;
static int budget, pickMax;
namespace Aqsis {
CqRandom::CqRandom() {} CqRandom::CqRandom(TqUint) {} void CqRandom::Reseed(TqUint) {} void CqRandom::NextState() {}
TqUint CqRandom::RandomInt() { return 0; }
TqUint CqRandom::RandomInt(TqUint n) { if(budget > 0) { --budget; return (TqUint)vs_choose(0, (int)n - 1, "ri"); } return pickMax ? n - 1 : 0; }
TqFloat CqRandom::RandomFloat() { if(budget > 0) { --budget; float f = vs_f32("rf"); vs_assume(f >= 0 && f <= 0.999); return f; } return 0.5f; }
TqFloat CqRandom::RandomFloat(TqFloat r) { return r * RandomFloat(); }
}
static void judge(IqSampler& s, int nx, int ny, bool rooks) {
    int n = nx * ny; const CqVector2D* p = s.get2DSamples(); const TqFloat* t = s.get1DSamples(); const TqInt* sh = s.getShuffledIndices(); bool ok = true;
    for(int j = 0; j < ny; ++j) for(int i = 0; i < nx; ++i) { const CqVector2D& q = p[j * nx + i]; const double e = 1e-4; ok &= (q.x() * nx >= i - e) & (q.x() * nx <= i + 1 + e) & (q.y() * ny >= j - e) & (q.y() * ny <= j + 1 + e); }
    vs_assert(ok, "every cell of the pixel has its own sample point");
    bool t1 = true; for(int i = 0; i < n; ++i) t1 &= (t[i] >= 0) & (t[i] < 1); vs_assert(t1, "times lie in [0,1)");
    for(int k = 0; k < n; ++k) { bool c = false; for(int i = 0; i < n; ++i) c |= (t[i] * n >= k - 1e-4) & (t[i] * n <= k + 1 + 1e-4); vs_assert(c, "times are spread over the shutter interval"); }
    if(n > 1) { bool d = true; for(int i = 0; i < n; ++i) for(int j = 0; j < i; ++j) { double dd = (double)t[i] - t[j]; d &= (dd > 0.5 / n) | (dd < -0.5 / n); } vs_assert(d, "times are apart"); }
    int seen = 0; for(int i = 0; i < n; ++i) { vs_assert(sh[i] >= 0 && sh[i] < n, "shuffled indices are in range"); seen |= 1 << sh[i]; } vs_assert(seen == (1 << n) - 1, "shuffled indices are a permutation");
    if(rooks && n > 1) for(int a = 0; a < 2; ++a) for(int k = 0; k < n; ++k) { bool c = false; for(int i = 0; i < n; ++i) { double v = (a ? p[i].y() : p[i].x()) * n; c |= (v >= k - 1e-3) & (v <= k + 1 + 1e-3); } vs_assert(c, "every row and column of the fine grid has a sample"); }
    vs_reach("end");
}
void harness() {
    static const int dims[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {3, 2}, {2, 3}, {4, 4}};
    if(vs_case() == 0) { int d = vs_choose(0, 7, "dims"); CqGridSampler g(dims[d][0], dims[d][1]); judge(g, dims[d][0], dims[d][1], false); return; }
    if(vs_case() == 1) { int d = vs_choose(0, 5, "dims"); pickMax = vs_choose(0, 1, "max"); CqMultiJitteredSampler m(dims[d][0], dims[d][1]); judge(m, dims[d][0], dims[d][1], true); return; }
    int d = vs_case() == 2 ? vs_choose(0, 2, "dims") : vs_case() == 3 ? 3 : 4; budget = d == 3 ? 13 : 20; CqMultiJitteredSampler m(dims[d][0], dims[d][1]); budget = 0; pickMax = 0; judge(m, dims[d][0], dims[d][1], true);
}
