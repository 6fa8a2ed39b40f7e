// Texture filtering: which pixels a filter sees, how they are averaged, and mipmap reduction.
#include "vsym.h"
#include "near.h"
#include <string.h>
#include <aqsis/math/random.h>
namespace Aqsis {   // any sequence of random numbers
CqRandom::CqRandom() {} CqRandom::CqRandom(TqUint) {}
static int draws = 0;
TqFloat CqRandom::RandomFloat() { if(!draws) return 0.25f; --draws; float f = vs_f32("random"); vs_assume(f >= 0 && f <= 0.9999); return f; }
TqFloat CqRandom::RandomFloat(TqFloat r) { return r * RandomFloat(); }
TqUint CqRandom::RandomInt() { return 1234567; } TqUint CqRandom::RandomInt(TqUint r) { return r ? 1234567 % r : 0; } void CqRandom::Reseed(TqUint) {}
}
#include <aqsis/tex/buffers/texturebuffer.h>
#include <aqsis/tex/buffers/tilearray.h>
#include <aqsis/tex/filtering/filtertexture.h>
#include <aqsis/tex/filtering/sampleaccum.h>
#include "downsample.h"
using namespace Aqsis;
static const int M = 5, C = 2, O = 8;   // largest image, channels, offset of the recording
static float P[M][M][C];
static void someImage(int W, int H) { for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) for(int c = 0; c < C; ++c) P[y][x][c] = vs_float_in(0, 1, "pixel"); }
static boost::shared_ptr<CqTextureBuffer<float> > flat(int W, int H) {
    boost::shared_ptr<CqTextureBuffer<float> > b(new CqTextureBuffer<float>(W, H, C)); for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) b->setPixel(x, y, P[y][x]); return b;
}
struct Tiles : IqTiledTexInputFile {
    CqTexFileHeader h; int W, H, w, t; mutable int reads;
    Tiles(int W, int H, int w, int t) : W(W), H(H), w(w), t(t), reads(0) { h.setWidth(W); h.setHeight(H); h.channelList().addChannel(SqChannelInfo("a", Channel_Float32)); h.channelList().addChannel(SqChannelInfo("b", Channel_Float32)); }
    boostfs::path fileName() const { return boostfs::path(); } EqImageFileType fileType() const { return ImageFile_Unknown; } const CqTexFileHeader& header(TqInt) const { return h; }
    SqTileInfo tileInfo() const { return SqTileInfo(w, t); } TqInt numSubImages() const { return 1; } TqInt width(TqInt) const { return W; } TqInt height(TqInt) const { return H; }
    void readTileImpl(TqUint8* b, TqInt X, TqInt Y, TqInt, const SqTileInfo s) const {
        ++reads; vs_assert(X >= 0 && Y >= 0 && X * w + s.width <= W && Y * t + s.height <= H, "only tiles of the image are read, cut at its edge"); float* f = (float*)b;
        for(int y = 0; y < s.height; ++y) for(int x = 0; x < s.width; ++x) for(int c = 0; c < C; ++c) *f++ = P[Y * t + y][X * w + x][c];
    }
};
struct Record {
    int n[2 * O][2 * O]; float v[2 * O][2 * O][C]; Record() { memset(n, 0, sizeof n); } bool setSampleVectorLength(TqInt l) { vs_assert(l == C, "the accumulator learns the number of channels"); return true; }
    template<typename S> void accumulate(TqInt x, TqInt y, const S& s) { if(x < -O || x >= O || y < -O || y >= O) { vs_assert(false, "samples lie in the support"); return; } ++n[y + O][x + O]; for(int c = 0; c < C; ++c) v[y + O][x + O][c] = s[c]; }
};
static EqWrapMode MODE[] = {WrapMode_Black, WrapMode_Periodic, WrapMode_Clamp};
static int wrap(int x, int n, EqWrapMode m) { if(x >= 0 && x < n) return x; if(m == WrapMode_Black) return -1; if(m == WrapMode_Clamp) return x < 0 ? 0 : n - 1; return ((x % n) + n) % n; }
template<typename A> static void wrapped(const A& a, int W, int H, EqWrapMode s, EqWrapMode t, bool no) {
    int far = vs_tier() ? 4 : 3, x0 = vs_choose(-far, far, "x"), y0 = vs_choose(-far, far, "y"), w = vs_choose(0, 3, "width"), h = vs_choose(no ? 0 : 1, no ? 3 : 2, "height"); Record r; SqFilterSupport sup(x0, x0 + w, y0, y0 + h);
    if(no) filterTextureNowrap(r, a, sup); else filterTexture(r, a, sup, SqWrapModes(s, t));
    for(int y = -O; y < O; ++y) for(int x = -O; x < O; ++x) { bool in = x >= x0 && x < x0 + w && y >= y0 && y < y0 + h; int px = wrap(x, W, s), py = wrap(y, H, t); if(no) in = in && px >= 0 && py >= 0;
        vs_assert(r.n[y + O][x + O] == in, "each pixel of the support is seen exactly once"); if(!in || r.n[y + O][x + O] != 1) continue;
        for(int c = 0; c < C; ++c) vs_assert(r.v[y + O][x + O][c] == (px < 0 || py < 0 ? 0 : P[py][px][c]), "a pixel outside the image follows the wrap mode"); }
    vs_reach("end");
}
static void tiled(EqWrapMode s, EqWrapMode t, bool no) {
    int W = vs_choose(2, no ? 4 : 3, "W"), H = vs_choose(2, 3 - no + vs_tier(), "H"), w = no ? 2 : vs_choose(1, 2, "tile width"), h = vs_choose(2 - no, 2, "tile height"); someImage(W, H); boost::shared_ptr<Tiles> f(new Tiles(W, H, w, h)); CqTileArray<float> a(f, 0);
    vs_assert(a.width() == W && a.height() == H && a.numChannels() == C, "a tiled image has its file's size");
    wrapped(a, W, H, s, t, no); int before = f->reads;
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) vs_assert(a(x, y)[1] == P[y][x][1], "any pixel can be read");
    vs_assert(f->reads == ((W + w - 1) / w) * ((H + h - 1) / h) && before <= f->reads, "each tile is read at most once");
}
// a chosen number of samples at random positions
static void chance(bool tiles) {
    int big = vs_tier(), W = vs_choose(2, 3, "W"), H = vs_choose(1, 2, "H"), n = vs_choose(0, 2 + big, "samples"), x0 = vs_choose(-1, 2, "x"), y0 = vs_choose(-1, big, "y"), w = vs_choose(0, 3, "width"), h = vs_choose(1, 2, "height"), got = 0; someImage(W, H); SqFilterSupport sup(x0, x0 + w, y0, y0 + h);
    bool empty = w == 0 || x0 >= W || y0 >= H || x0 + w <= 0 || y0 + h <= 0; draws = 6;
    auto see = [&](int x, int y, float a, float b) { ++got; vs_assert(x >= sup.sx.start && x < sup.sx.end && y >= sup.sy.start && y < sup.sy.end && x >= 0 && y >= 0 && x < W && y < H, "random samples lie in the support and the image"); for(int Y = 0; Y < H; ++Y) for(int X = 0; X < W; ++X) if(X == x && Y == y) vs_assert(a == P[Y][X][0] && b == P[Y][X][1], "a sample is its pixel"); };
    if(tiles) { boost::shared_ptr<Tiles> f(new Tiles(W, H, 2, 1)); CqTileArray<float> a(f, 0); for(CqTileArray<float>::TqStochasticIterator i = a.beginStochastic(sup, n); i.inSupport(); ++i) { if(got > n) break; see(i.x(), i.y(), (*i)[0], (*i)[1]); } vs_assert(got == (empty ? 0 : n), "as many samples as asked for"); }
    else if(!empty) { boost::shared_ptr<CqTextureBuffer<float> > a = flat(W, H); for(CqTextureBuffer<float>::TqStochasticIterator i = a->beginStochastic(sup, n); i.inSupport(); ++i) see(i.x(), i.y(), (*i)[0], (*i)[1]); vs_assert(got == n, "as many samples as asked for"); }
    vs_reach("end");
}
struct Weights { float w[3]; bool norm; float operator()(TqInt x, TqInt y) const { return w[x + y]; } bool isNormalized() const { return norm; } };
struct Depths { float d[3]; float operator()(TqInt x, TqInt y) const { return d[x + y]; } };
static float weight(int i) { static const float w[] = {0.5, 0, 0.25, -0.125, 1}; return w[i]; }
static void average() {
    Weights k; int n = vs_choose(0, 3, "samples"), len[2] = {vs_choose(1, 3, "length"), 0}, start = vs_choose(0, 2, "first"), num = vs_choose(0, 3, "channels"); k.norm = vs_bool("normalised"); bool again = vs_bool("again"); len[1] = again ? vs_choose(1, 3, "length") : len[0]; int pick = n ? vs_choose(0, 4, "weights") : 0; float fill = vs_float_in(0, 1, "fill"), in[3][6], out[4] = {7, 7, 7, 7}; double tot = 0, sum[6] = {};
    for(int i = 0; i < 3; ++i) { k.w[i] = weight((pick + 2 * i) % 5); for(int c = 0; c < 6; ++c) in[i][c] = vs_float_in(0, 1, "sample"); if(i < n) { tot += k.w[i]; for(int c = 0; c < 6; ++c) sum[c] += k.w[i] * in[i][c]; } else k.w[i] = 0; if(i >= n) break; }
    { CqSampleAccum<Weights> a(k, start, num, out, fill); bool on = a.setSampleVectorLength(len[0]); if(again) on = a.setSampleVectorLength(len[1]); vs_assert(on || start >= len[1] || !num, "an image with wanted channels is sampled"); if(on) for(int i = 0; i < n; ++i) a.accumulate(i, 0, in[i]); if(!on) vs_assert(start >= len[1], "an image is skipped only without wanted channels"); }
    for(int c = 0; c < 4; ++c) { double want = c >= num ? 7 : c + start >= len[1] ? fill : k.norm || tot == 0 ? sum[c + start] : sum[c + start] / tot; vs_assert(nearTo(out[c], want, 1e-4), c >= num ? "nothing else is written" : c + start >= len[1] ? "channels missing in the image are filled" : "the result is the weighted average"); }
    vs_reach("end");
}
static void shadow() {
    Weights k; Depths d; k.norm = vs_bool("normalised"); int n = vs_choose(0, 2, "samples"), bias = vs_choose(0, 2, "bias"); float lo = bias ? vs_float_in(-1, 1, "low") : 0, hi = bias == 2 ? vs_float_in(-1, 1, "high") : lo, in[2][2], out = 7; if(bias == 2) vs_assume(hi > lo + 0.01f); double tot = 0, sum = 0;
    for(int i = 0; i < n; ++i) { k.w[i] = weight(vs_choose(0, 4, "weight")); d.d[i] = vs_float_in(0, 4, "depth"); in[i][0] = 9; in[i][1] = vs_float_in(0, 4, "map"); }
    { CqPcfAccum<Weights, Depths> a(k, d, 1, lo, hi, &out); vs_assert(!a.setSampleVectorLength(1) && a.setSampleVectorLength(2), "an image without the depth channel is skipped"); for(int i = 0; i < n; ++i) a.accumulate(i, 0, in[i]); }
    for(int i = 0; i < n; ++i) { double g = d.d[i] - in[i][1], s; if(hi == lo) { s = g > lo; } else s = g >= hi ? 1 : g <= lo ? 0 : (g - lo) / (hi - lo); tot += k.w[i]; sum += k.w[i] * s; }
    vs_assert(nearTo(out, k.norm || tot == 0 ? sum : sum / tot, 1e-4), "the shadow is the weighted part of the samples in front of the surface"); vs_reach("end");
}
// reduction to half size with a lopsided filter
static float kernel(float x, float y, float w, float h) { return x < -w / 2 || x > w / 2 || y < -h / 2 || y > h / 2 ? 0 : 4 + x + 2 * y + x * y + w - h / 2; }
static void reduce(EqWrapMode s, EqWrapMode t) {
    static const float width[] = {1, 1.5, 2, 3, 4.5}; int W = vs_choose(1, 5, "W"), H = vs_choose(1, vs_tier() ? 4 : 3, "H"); float fw = width[vs_choose(0, 4, "fw")], fh = width[vs_choose(0, vs_tier() ? 4 : 2, "fh")]; someImage(W, H);
    boost::shared_ptr<CqTextureBuffer<float> > a = flat(W, H), b = downsample(*a, SqFilterInfo(kernel, fw, fh), SqWrapModes(s, t)); int w = (W + 1) / 2, h = (H + 1) / 2;
    vs_assert(b->width() == w && b->height() == h && b->numChannels() == C, "a reduced image has half the size, rounded up"); if(b->width() != w || b->height() != h) return;
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) { double cx = W % 2 ? 2 * x : 2 * x + 0.5, cy = H % 2 ? 2 * y : 2 * y + 0.5, sum[C] = {}, tot = 0;
        for(int j = -6; j < H + 6; ++j) for(int i = -6; i < W + 6; ++i) { double k = kernel((i - cx) * 0.5, (j - cy) * 0.5, fw * 0.5f, fh * 0.5f); if(k == 0) continue; int px = wrap(i, W, s), py = wrap(j, H, t); tot += k; if(px < 0 || py < 0) continue; for(int c = 0; c < C; ++c) sum[c] += k * P[py][px][c]; }
        for(int c = 0; c < C; ++c) vs_assert(nearTo((*b)(x, y)[c], sum[c] / tot, 1e-3), "a reduced pixel is the filtered average of the pixels under it"); }
    vs_reach("end");
}
static void levels() {
    int W = vs_choose(1, 5, "W"), H = vs_choose(1, 5, "H"), n = 0; someImage(1, 1); boost::shared_ptr<CqTextureBuffer<float> > a(new CqTextureBuffer<float>(W, H, 1)); float v = vs_float_in(0, 1, "v"); for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) a->setPixel(x, y, &v);
    for(CqDownsampleIterator<CqTextureBuffer<float> > i(a, SqFilterInfo(kernel, 2, 3), SqWrapModes(WrapMode_Clamp, WrapMode_Periodic)), e; i != e; ++i) { vs_assert((*i)->width() == W && (*i)->height() == H, "each level has half the size of the last"); for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) vs_assert(nearTo((**i)(x, y)[0], v, 1e-3), "a flat image stays flat"); if(++n > 4) break; if(W == 1 && H == 1) W = H = -1; W = (W + 1) / 2; H = (H + 1) / 2; }
    vs_assert(W == 0 && H == 0, "the last level is one pixel"); vs_reach("end");
}
void harness() {
    int c = vs_case(); EqWrapMode s = MODE[c / 3 % 3], t = MODE[c % 3];
    if(c < 9) { int W = vs_choose(1, 2 + vs_tier(), "W"), H = vs_choose(1, 2, "H"); someImage(W, H); wrapped(*flat(W, H), W, H, s, t, false); }
    else if(c < 18) tiled(s, t, false); else if(c < 27) reduce(s, t);
    else if(c == 27) { int W = vs_choose(1, 3, "W"), H = vs_choose(1, 3, "H"); someImage(W, H); wrapped(*flat(W, H), W, H, WrapMode_Black, WrapMode_Black, true); }
    else if(c == 28) tiled(WrapMode_Black, WrapMode_Black, true); else if(c == 29) chance(false); else if(c == 30) chance(true); else if(c == 31) average(); else if(c == 32) shadow(); else levels();
}
