// Image buffers: regions copied, converted between channel types and composited.
#include "vsym.h"
#include "near.h"
#include <aqsis/tex/buffers/mixedimagebuffer.h>
#include <limits>
using namespace Aqsis;
static const EqChannelType TY[] = {Channel_Unsigned8, Channel_Signed8, Channel_Unsigned16, Channel_Signed16, Channel_Unsigned32, Channel_Signed32, Channel_Float32};
static int bits(EqChannelType t) { return t == Channel_Unsigned8 || t == Channel_Signed8 ? 8 : t == Channel_Unsigned16 || t == Channel_Signed16 ? 16 : 32; }
static int64_t least(EqChannelType t) { return t == Channel_Signed8 ? -128 : t == Channel_Signed16 ? -32768 : t == Channel_Signed32 ? -2147483648ll : 0; }
static int64_t load(const TqUint8* p, EqChannelType t) { switch(t) { case Channel_Unsigned8: return *p; case Channel_Signed8: return *(const signed char*)p; case Channel_Unsigned16: return *(const TqUint16*)p; case Channel_Signed16: return *(const TqInt16*)p; case Channel_Unsigned32: return *(const TqUint32*)p; default: return *(const TqInt32*)p; } }
static CqChannelList list(const char* names, const EqChannelType* ty) { CqChannelList l; for(int i = 0; names[i]; ++i) l.addChannel(SqChannelInfo(std::string(1, names[i]), ty[i])); return l; }
// bytes are arbitrary; wider integers have an arbitrary last byte after one of several beginnings
static void some(TqUint8* p, int n) {
    static const TqUint32 top[] = {0, 0xffffff, 0x7fffff, 0x800000, 1, 0xfffffe, 0x5a5a5a, 0xc3b2a1}; TqUint32 b = vs_u8("v"); if(n == 8) { p[0] = b; return; }
    TqUint32 t = top[vs_choose(0, vs_tier() ? 7 : 3, "begin")]; if(n == 16) { TqUint16 v = (t >> 16 << 8 | (t & (t < 256 ? 255 : 0)) << 8) | b; memcpy(p, &v, 2); } else { TqUint32 v = t << 8 | b; memcpy(p, &v, 4); }
}
// one pixel of one type to another
static void convert(EqChannelType from, EqChannelType to) {
    CqMixedImageBuffer a(list("x", &from), 1, 1), b(list("x", &to), 1, 1); TqUint8* p = a.rawData(); int n = bits(from);
    some(p, n); b.copyFrom(a); int64_t v = load(p, from) - least(from), w = load(b.rawData(), to) - least(to); int m = bits(to); int64_t V = (1ll << n) - 1, W = (1ll << m) - 1;
    if(v == 0) vs_assert(w == 0, "the least value stays the least"); if(v == V) vs_assert(w == W, "the greatest value stays the greatest");
    if(n <= 16 && m <= 16) vs_assert(n == m ? w == v : n < m ? w == v * 257 : w == (v + 128) / 257, "a value converts to the nearest value of the new type");
    else { int64_t unit = n < m ? W / V : V / W, miss = n == m ? w - v : n < m ? w - v * unit : w * unit - v; if(miss < 0) miss = -miss; vs_assert(miss <= (n > m ? unit / 2 : 0) + 512, "a value converts to the nearest value of the new type, to the precision of a float"); }
}
static void fromFloat(EqChannelType to, bool any) {
    EqChannelType f = Channel_Float32; CqMixedImageBuffer a(list("x", &f), 1, 1), b(list("x", &to), 1, 1); static const float at[] = {0, 1, -0.00390625f, 0.99999994f, 1.00390625f, 0.5f, 0.25f, 0.99609375f, 0.00390625f, -3e9f, 3e9f, 1e-9f}; float step = bits(to) == 8 ? 0.25f : bits(to) == 16 ? 0.002f : 2e-8f; int part = any ? vs_choose(0, 3, "part") : 0; float x = any ? vs_float_in(part == 0 ? -4 : part == 1 ? 0.25 : part == 2 ? 0.5 : 1 - step, part == 0 ? step : part == 1 ? 0.25 + step : part == 2 ? 0.5 + step : 4, "x") : at[vs_choose(0, 11, "x")]; memcpy(a.rawData(), &x, 4);
    b.copyFrom(a); int64_t w = load(b.rawData(), to) - least(to), W = (1ll << bits(to)) - 1;
    if(x <= 0) vs_assert(w == 0, "negative values are clamped to black"); else if(x >= 1) vs_assert(w == W, "values above one are clamped to white");
    else { double d = w - (double)x * W; vs_assert(d <= 0.51 + W * 1.3e-7 && d >= -0.51 - W * 1.3e-7, "a value is quantised to the nearest step"); }
}
static void toFloat(EqChannelType from) {
    EqChannelType f = Channel_Float32; CqMixedImageBuffer a(list("x", &from), 1, 1), b(list("x", &f), 1, 1); TqUint8* p = a.rawData(); int n = bits(from);
    if(from == Channel_Float32) { float x = vs_f32("x"), y; vs_assume(x == x); memcpy(p, &x, 4); b.copyFrom(a); memcpy(&y, b.rawData(), 4); vs_assert(x == y, "floats are copied exactly"); return; }
    some(p, n);
    b.copyFrom(a); float y; memcpy(&y, b.rawData(), 4); int64_t v = load(p, from) - least(from), V = (1ll << n) - 1; double d = (double)y * V - v; vs_assert(d <= 0.01 && d >= -0.01, "an integer becomes its fraction of the range");
    if(v == V) vs_assert(y == 1, "the greatest value is one"); if(v == 0) vs_assert(y == 0, "the least value is zero");
}
static const EqChannelType FF[] = {Channel_Float32, Channel_Unsigned8, Channel_Float32};
// regions: a small image laid over another at any offset
static void region(int how, bool one = false) {
    int big = vs_tier() ? 3 : 2, W = one ? 1 : vs_choose(1, 3, "W"), H = one ? 1 : vs_choose(1, big, "H"), w = one ? 1 : vs_choose(1, big, "w"), h = one ? 1 : vs_choose(1, 2, "h"), X = one ? 0 : vs_choose(-3, 3, "X"), Y = one ? 0 : vs_choose(-2, 2, "Y"); int turn = how == 2 ? vs_choose(0, 1, "turn") : 0;
    CqMixedImageBuffer d(list("fub", FF), W, H), s(list(how == 2 ? "fua" : "fub", FF), w, h); float D[3][3][3], S[3][3][3];
    vs_assert(d.channelList().bytesPerPixel() == 9 && d.channelList().channelByteOffset(1) == 4 && d.channelList().channelByteOffset(2) == 5, "channels are packed in order");
    auto put = [](CqMixedImageBuffer& b, int x, int y, int c, float v) { TqUint8* p = b.rawData() + (y * b.width() + x) * 9; if(c == 1) p[4] = 255 * v; else memcpy(p + (c ? 5 : 0), &v, 4); };
    auto get = [](CqMixedImageBuffer& b, int x, int y, int c) { TqUint8* p = b.rawData() + (y * b.width() + x) * 9; float v; if(c == 1) return p[4] / 255.0f; memcpy(&v, p + (c ? 5 : 0), 4); return v; };
    auto some = [](int c) { return c == 1 ? (vs_bool("on") ? 1.f : 0.f) : vs_float_in(0, 1, "v"); };
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) for(int c = 0; c < 3; ++c) put(d, x, y, c, D[y][x][c] = c == 1 ? (x + y + one) % 2 : some(c));
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) for(int c = 0; c < 3; ++c) put(s, x, y, c, S[y][x][c] = c == 1 ? (x + y + 1 + one) % 2 : c == 2 && how == 2 && !one ? (x + 2 * y + 3 * turn) % 5 / 4.f : some(c));
    if(how == 0) d.copyFrom(s, X, Y); else { TqChannelNameMap m; m["f"] = how == 1 ? "b" : "f"; m["u"] = "u"; if(how == 1) d.copyFrom(s, m, X, Y); else d.compositeOver(s, m, X, Y); }
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) { int sx = x - X, sy = y - Y; bool in = sx >= 0 && sx < w && sy >= 0 && sy < h;
        for(int c = 0; c < 3; ++c) { double want = D[y][x][c]; if(in) { const float* q = S[sy][sx]; if(how == 0) want = q[c]; else if(how == 1) want = c == 0 ? q[2] : c == 1 ? q[1] : want; else if(c < 2) want = q[c] + (1 - q[2]) * D[y][x][c]; }
            if(c == 1 && how == 2) { double g = get(d, x, y, c) - (want > 1 ? 1 : want); vs_assert(g < 0.0025 && g > -0.0025, "composited bytes are the covered background plus the source"); }
            else vs_assert(nearTo(get(d, x, y, c), want, 1e-4), in ? "a covered pixel takes the source's value" : "a pixel outside the source keeps its value"); } }
    vs_reach("end");
}
// the display order of channels
static void reorder() {
    const char* names = "abgrz"; bool used[5] = {}; char order[6] = {}; EqChannelType ty[5]; int n = vs_choose(1, 5, "n"); for(int i = 0; i < n; ++i) { int k = vs_choose(0, 4, "channel"); if(used[k]) { vs_reach("end"); return; } used[k] = true; order[i] = names[k]; ty[i] = k % 2 ? Channel_Float32 : Channel_Unsigned16; }
    CqChannelList l = list(order, ty); l.reorderChannels(); const char* std = "rgba"; int at = 0, off = 0; vs_assert(l.numChannels() == n, "no channel is lost or gained");
    for(const char* c = std; *c; ++c) if(strchr(order, *c)) { vs_assert(l[at].name == std::string(1, *c), "colour channels come first, in the order rgba"); ++at; }
    if(strchr(order, 'z')) vs_assert(l[at].name == "z", "other channels follow");
    for(int i = 0; i < n; ++i) { EqChannelType t = Channel_TypeUnknown; for(int j = 0; j < n; ++j) if(l[i].name == std::string(1, order[j])) t = ty[j]; vs_assert(l[i].type == t, "a channel keeps its type"); vs_assert(l.channelByteOffset(i) == off && l.findChannelIndex(l[i].name) == i, "offsets follow the order"); off += bits(t) / 8; }
    vs_assert(l.bytesPerPixel() == off, "a pixel is as large as its channels"); vs_reach("end");
}
void harness() {
    int c = vs_case();
    if(c < 3) { region(c); return; } if(c == 4) { region(2, true); return; } if(c == 3) { reorder(); return; }
    if(c >= 100) { convert(TY[(c - 100) / 10], TY[(c - 100) % 10]); } else if(c >= 20 && c < 40) toFloat(TY[c - 20]); else fromFloat(TY[(c - 10) % 30], c >= 40);
    vs_reach("end");
}
