// C05: the RIB parser delivers exactly the well-formed requests of a stream,
// reports each malformed one, and a malformed one never hides the next request.
#include "ri_record.h"
#include <aqsis/riutil/ribparser.h>
#include <aqsis/riutil/ribwriter.h>
using namespace Aqsis;
enum Kind { K_INT, K_FLT, K_STR, K_OPEN, K_CLOSE, K_REQ, K_BAD, K_EOF };
struct Tok { int kind; int i; float f; std::string s; };
static unsigned char byte(const char* n) { unsigned char c = vs_u8(n); vs_assume(c != '\n' && c != '\r'); return c; }   // line counting is C03's business
struct Script {
    std::string text; std::vector<Tok> t;
    void sp() { text += ' '; }
    void add(int k, int i, float f, const std::string& s) { Tok x; x.kind = k; x.i = i; x.f = f; x.s = s; t.push_back(x); }
    void req(const char* n) { text += n; sp(); add(K_REQ, 0, 0, n); }
    void integer() { unsigned char d = byte("d"); text += (char)0200; text += (char)d; add(K_INT, d, 0, ""); sp(); }
    void flt() { unsigned v = 0; text += (char)0244; for(int k = 0; k < 4; ++k) { unsigned char c = k == 1 ? byte("v") : 0x40; v = v << 8 | c; text += (char)c; } float f; memcpy(&f, &v, 4); add(K_FLT, 0, f, ""); sp(); }
    void str() { char c = (char)byte("c"); vs_assume((unsigned char)c > 127); text += (char)0221; text += c; std::string s; s += c; add(K_STR, 0, 0, s); sp(); }
    void name(const char* n) { text += '"'; text += n; text += '"'; add(K_STR, 0, 0, n); sp(); }
    void open() { text += '['; add(K_OPEN, 0, 0, ""); sp(); }
    void close() { text += ']'; add(K_CLOSE, 0, 0, ""); sp(); }
    void bad() { unsigned char c = 0250; text += (char)c; add(K_BAD, 0, 0, ""); sp(); }
    void any(int k, const char* rq) { switch(k) { case 0: integer(); break; case 1: flt(); break; case 2: str(); break; case 3: open(); break; case 4: close(); break; case 5: req(rq); break; case 6: bad(); break; case 7: name("uniform float[2] a"); break; case 8: name("varying int  i "); break; case 9: name("string  nam "); break; case 10: name("undeclared"); break; } }
};
// reference reader: token level grammar of the requests used below
struct Err {};
struct Ref {
    const std::vector<Tok>& t; size_t at; Recorder& r; int errs;
    Ref(const std::vector<Tok>& t_, Recorder& r_) : t(t_), at(0), r(r_), errs(0) {}
    int k() const { return at < t.size() ? t[at].kind : (int)K_EOF; }
    [[noreturn]] void fail() { if(k() != K_REQ && k() != K_EOF) ++at; throw Err(); }
    int i() { if(k() != K_INT) fail(); return t[at++].i; }
    float f() { if(k() == K_INT) return (float)t[at++].i; if(k() != K_FLT) fail(); return t[at++].f; }
    const char* s() { if(k() != K_STR) fail(); return t[at++].s.c_str(); }
    std::vector<int> I() { std::vector<int> v; if(k() != K_OPEN) fail(); ++at; while(k() == K_INT) v.push_back(t[at++].i); if(k() != K_CLOSE) fail(); ++at; return v; }
    std::vector<float> F() { std::vector<float> v; if(k() != K_OPEN) fail(); ++at; while(k() == K_INT || k() == K_FLT) v.push_back(f()); if(k() != K_CLOSE) fail(); ++at; return v; }
    std::vector<const char*> S() { std::vector<const char*> v; if(k() != K_OPEN) fail(); ++at; while(k() == K_STR) v.push_back(s()); if(k() != K_CLOSE) fail(); ++at; return v; }
    std::vector<float> Fn(size_t n) { std::vector<float> v; if(k() == K_OPEN) { v = F(); if(v.size() != n) throw Err(); return v; } for(size_t j = 0; j < n; ++j) v.push_back(f()); return v; }
    template<class T> static Ri::Array<T> arr(const std::vector<T>& v) { T* p = new T[v.size() + 1]; for(size_t j = 0; j < v.size(); ++j) p[j] = v[j]; return Ri::Array<T>(p, v.size()); }
    size_t comps = 3;
    static size_t fixedLen(const std::string& n) {
        static const struct { const char* n; int l; } T[] = {{"ScreenWindow", 4}, {"CropWindow", 4}, {"TextureCoordinates", 8}, {"Bound", 6}, {"Detail", 6}, {"DetailRange", 4}, {"Skew", 7}, {"Sphere", 4}, {"Cone", 3}, {"Cylinder", 4}, {"Hyperboloid", 7}, {"Paraboloid", 4}, {"Disk", 3}, {"Torus", 5}};
        for(size_t q = 0; q < sizeof T / sizeof *T; ++q) if(n == T[q].n) return T[q].l;
        return 0;
    }
    std::vector<Ri::Param> store;
    Ri::ParamList P() {
        store.clear();
        while(k() == K_INT || k() == K_FLT || k() == K_STR || k() == K_OPEN) {
            std::string n = s();
            if(n == "uniform float[2] a") { std::vector<float> v; if(k() == K_OPEN) v = F(); else v.push_back(f()); store.push_back(Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform, Ri::TypeSpec::Float, 2), "a", arr(v))); }
            else if(n == "varying int  i ") { std::vector<int> v; if(k() == K_OPEN) v = I(); else v.push_back(i()); store.push_back(Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Varying, Ri::TypeSpec::Integer, 1), "i", arr(v))); }
            else if(n == "string  nam ") { std::vector<const char*> v; if(k() == K_OPEN) v = S(); else v.push_back(s()); store.push_back(Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform, Ri::TypeSpec::String, 1), "nam", arr(v))); }
            else throw Err();                       // undeclared
        }
        return store.empty() ? Ri::ParamList() : Ri::ParamList(&store[0], store.size());
    }
    void run() {
        while(true) {
            try {
                if(k() == K_EOF) return;
                if(k() != K_REQ) fail();
                std::string n = t[at++].s;
                if(n == "FrameBegin") { int a = i(); r.FrameBegin(a); }
                else if(n == "FrameEnd") r.FrameEnd();
                else if(n == "Identity") r.Identity();
                else if(n == "Clipping") { float a = f(), b = f(); r.Clipping(a, b); }
                else if(n == "Format") { int a = i(), b = i(); float c = f(); r.Format(a, b, c); }
                else if(n == "Color" || n == "Opacity") { std::vector<float> v = Fn(comps); if(v.size() < 3) throw Err(); if(n == "Color") r.Color(*(RtConstColor*)&v[0]); else r.Opacity(*(RtConstColor*)&v[0]); }
                else if(n == "ColorSamples") { std::vector<float> a = F(), b = F(); r.ColorSamples(arr(a), arr(b)); comps = a.size() / 3; }
                else if(n == "Transform" || n == "ConcatTransform") { std::vector<float> v = F(); if(v.size() != 16) throw Err(); if(n == "Transform") r.Transform(*(RtConstMatrix*)&v[0]); else r.ConcatTransform(*(RtConstMatrix*)&v[0]); }
                else if(n == "Basis") { std::vector<float> a = F(); if(a.size() != 16) throw Err(); int us = i(); std::vector<float> b = F(); if(b.size() != 16) throw Err(); int vs = i(); r.Basis(*(RtConstBasis*)&a[0], us, *(RtConstBasis*)&b[0], vs); }
                else if(fixedLen(n)) { std::vector<float> v = Fn(fixedLen(n)); const float* a = &v[0];
                    if(n == "ScreenWindow") r.ScreenWindow(a[0], a[1], a[2], a[3]); else if(n == "CropWindow") r.CropWindow(a[0], a[1], a[2], a[3]); else if(n == "TextureCoordinates") r.TextureCoordinates(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
                    else if(n == "Bound") r.Bound(a); else if(n == "Detail") r.Detail(a); else if(n == "DetailRange") r.DetailRange(a[0], a[1], a[2], a[3]); else if(n == "Skew") r.Skew(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
                    else { Ri::ParamList q = P(); if(n == "Sphere") r.Sphere(a[0], a[1], a[2], a[3], q); else if(n == "Cone") r.Cone(a[0], a[1], a[2], q); else if(n == "Cylinder") r.Cylinder(a[0], a[1], a[2], a[3], q); else if(n == "Hyperboloid") r.Hyperboloid(a, a + 3, a[6], q);
                        else if(n == "Paraboloid") r.Paraboloid(a[0], a[1], a[2], a[3], q); else if(n == "Disk") r.Disk(a[0], a[1], a[2], q); else r.Torus(a[0], a[1], a[2], a[3], a[4], q); } }
                else if(n == "CoordinateSystem") { const char* a = s(); r.CoordinateSystem(a); }
                else if(n == "Attribute") { const char* a = s(); Ri::ParamList p = P(); r.Attribute(a, p); }
                else if(n == "MotionBegin") { std::vector<float> v = F(); r.MotionBegin(arr(v)); }
                else if(n == "Polygon") { Ri::ParamList p = P(); r.Polygon(p); }
                else if(n == "PointsPolygons") { std::vector<int> a = I(), b = I(); Ri::ParamList p = P(); r.PointsPolygons(arr(a), arr(b), p); }
                else throw Err();
            } catch(Err&) { ++errs; while(k() != K_REQ && k() != K_EOF) ++at; }
        }
    }
};
static std::ostream* nul; static RibWriterServices* w; static ReadSvc* rsp; static RibParser* p;
static void setup() {   // before any choice, so that it is executed once
    nul = new std::ostream((std::streambuf*)0); w = createRibWriter(*nul, RibWriterOptions()); rsp = new ReadSvc(w); p = RibParser::create(*rsp);
}
static void compare(Script& sc) {
    Recorder want(w), got(w); Ref ref(sc.t, want); ref.run();
    ReadSvc& rs = *rsp; rs.first = &got;
    char* b = new char[sc.text.size() + 1]; memcpy(b, sc.text.data(), sc.text.size());
    MemIn in(b, sc.text.size());
    p->parseStream(in, "s", got);
    vs_assert(got.ncalls == want.ncalls, "exactly the well-formed requests are delivered");
    recSame(want, got, "well-formed requests are delivered with their arguments");
    vs_assert(rs.err.n == ref.errs, "each malformed request is reported once");
    vs_reach("end");
}
static const char* const rq[] = {"FrameBegin", "Clipping", "Format", "Color", "CoordinateSystem", "MotionBegin", "PointsPolygons", "Nonsense", "Identity"};
static void simple(int lo, int hi) {
    Script sc; sc.req(rq[vs_choose(lo, hi, "request")]);
    int n = vs_choose(0, vs_tier() ? 4 : 3, "n");
    for(int k = 0; k < n; ++k) sc.any(vs_choose(0, 6, "tok"), "Identity");
    sc.req("FrameBegin"); sc.integer(); sc.req("FrameEnd");
    compare(sc);
}
// (strings are one byte > 127, so never the name of a predeclared variable)
// parameter lists: names with stray white space, values of each shape, mixed with junk
static void params() {
    Script sc; bool poly = vs_choose(0, 1, "request"); sc.req(poly ? "Polygon" : "Attribute"); if(!poly) sc.name("x");
    int n = vs_choose(0, vs_tier() ? 4 : 3, "n");
    for(int k = 0; k < n; ++k) { int v = vs_choose(0, 9, "tok"); sc.any(v < 7 ? v : v + 0, "Identity"); }
    sc.req("FrameEnd"); compare(sc);
}
// several well-formed parameters, each name and value of a freely chosen shape
static void paramSeq() {
    Script sc; sc.req("Polygon"); int n = vs_choose(1, vs_tier() ? 4 : 3, "n");
    for(int k = 0; k < n; ++k) {
        int ty = vs_choose(0, 3, "type"); bool a = vs_choose(0, 1, "array"); sc.any(7 + ty, "");
        int e = a ? vs_choose(0, 2, "len") : 1; if(a) sc.open();
        for(int j = 0; j < e; ++j) { if(ty == 0) { if(vs_choose(0, 1, "int")) sc.integer(); else sc.flt(); } else if(ty == 1) sc.integer(); else sc.str(); }
        if(a) sc.close();
    }
    sc.req("Identity"); compare(sc);
}
// junk before the first request and between requests
static void junk() {
    Script sc; int n = vs_choose(0, vs_tier() ? 3 : 2, "n"); for(int k = 0; k < n; ++k) sc.any(vs_choose(0, 6, "tok"), "Nonsense");
    sc.req("FrameBegin"); sc.integer(); int m = vs_choose(0, 2, "m"); for(int k = 0; k < m; ++k) sc.any(vs_choose(0, 6, "tok"), "FrameEnd");
    sc.req("FrameEnd"); compare(sc);
}
// a stream that stops anywhere
static void truncated() {
    Script sc; sc.req("Identity"); sc.req(rq[vs_choose(0, 8, "request")]); int n = vs_choose(0, 3, "n");
    for(int k = 0; k < n; ++k) sc.any(vs_choose(0, 6, "tok"), "Identity");
    compare(sc);
}
// requests with a fixed number of values, given singly or as an array, one too few or too many
static void vals(Script& sc, int n, bool array) { if(array) sc.open(); for(int k = 0; k < n; ++k) { if(k % 3 == 1) sc.integer(); else sc.flt(); } if(array) sc.close(); }
static void fixedArrays() {
    static const char* const q[] = {"ScreenWindow", "CropWindow", "TextureCoordinates", "Bound", "Detail", "DetailRange", "Skew", "Sphere", "Cone", "Cylinder", "Hyperboloid", "Paraboloid", "Disk", "Torus", "Transform", "ConcatTransform", "Basis", "Color", "Opacity"};
    Script sc; const char* n = q[vs_choose(0, 18, "request")]; bool array = vs_choose(0, 1, "array"); int d = vs_choose(-1, 1, "off"); size_t len = Ref::fixedLen(n);
    sc.req(n);
    if(!strcmp(n, "Basis")) { bool second = vs_choose(0, 1, "second"); vals(sc, 16 + (second ? 0 : d), true); sc.integer(); vals(sc, 16 + (second ? d : 0), array); sc.integer(); }
    else vals(sc, (len ? (int)len : n[0] == 'O' || (n[0] == 'C' && n[2] == 'l') ? 3 : 16) + d, array);
    if(vs_choose(0, 1, "more")) { sc.any(7, ""); sc.flt(); }
    sc.req("FrameBegin"); sc.integer(); compare(sc);
}
// colours have the number of components of the last ColorSamples (the first three are used)
static void colorSamples() {
    Script sc; int m = vs_choose(0, 2, "samples");
    for(int k = 0; k < m; ++k) { int c = vs_choose(1, 4, "comps"); sc.req("ColorSamples"); vals(sc, 3 * c, true); vals(sc, 3 * (1 + k), true); if(vs_choose(0, 1, "bad")) sc.bad(); }
    sc.req(vs_choose(0, 1, "opacity") ? "Opacity" : "Color"); vals(sc, vs_choose(0, 5, "given"), vs_choose(0, 1, "array")); sc.req("FrameBegin"); sc.integer(); compare(sc);
}
// parameter names with any white space after them
static void trailing() {
    Script sc; sc.req("Polygon"); static const char* const t[] = {"uniform float[2] a", "uniform float[2] a ", "uniform float[2] a\t", "uniform float[2] a \t ", "varying int  i ", "varying int  i\t", "string  nam "};
    int n = vs_choose(1, 3, "n");
    for(int k = 0; k < n; ++k) { int v = vs_choose(0, 6, "name"); sc.name(t[v]); if(v < 4) sc.t.back().s = "uniform float[2] a"; else if(v < 6) sc.t.back().s = "varying int  i "; if(v < 4) sc.flt(); else if(v < 6) sc.integer(); else sc.str(); }
    sc.req("Identity"); compare(sc);
}
void harness() {
    setup();
    switch(vs_case()) {
        case 0: simple(0, 2); break;
        case 1: simple(3, 4); break;
        case 2: simple(5, 6); break;
        case 3: simple(7, 8); break;
        case 4: params(); break;
        case 5: paramSeq(); break;
        case 6: junk(); break;
        case 7: truncated(); break;
        case 8: fixedArrays(); break;
        case 9: colorSamples(); break;
        case 10: trailing(); break;
    }
}
