// C04: what the RIB writer emits, the RIB parser reads back as the same calls.
#include "ri_record.h"
#include <aqsis/riutil/ribwriter.h>
#include <aqsis/riutil/ribparser.h>
using namespace Aqsis;
struct RT {
    MemOut out; RibWriterServices* w; Recorder direct; RiArgs A;
    static RibWriterOptions opts(bool ascii) { RibWriterOptions o; o.useBinary = !ascii; return o; }
    RT(bool ascii) : out(4096), w(createRibWriter(out, opts(ascii))), direct(w), A(w) { A.ascii = ascii; vs_exact_ints = 1; }
    void readBack(const char* what) {
        vs_assert(out.good(), "harness: output buffer large enough");
        vs_exact_ints = 0;
        ReadSvc rs(w); Recorder back(w); rs.first = &back;
        struct DeclRec : Recorder { ReadSvc& s; DeclRec(ReadSvc& s_, const Ri::RendererServices* b) : Recorder(b), s(s_) {}
            RtVoid Declare(RtConstString n, RtConstString d) { s.dict.declare(n, d); Recorder::Declare(n, d); } } rec(rs, w);
        MemIn in(out.b, out.size());
        RibParser* p = RibParser::create(rs);
        p->parseStream(in, "s", rec);
        vs_assert(rs.err.n == 0, "written RIB reads back without an error");
        vs_assert(rec.ncalls == direct.ncalls, "written RIB reads back as the same number of calls");
        recSame(direct, rec, what);
        vs_reach("end");
    }
};
static void call(RT& t, int id) { Tee tee(t.direct, t.w->firstFilter()); riCall(id, tee, t.A); }

static void allCalls(bool ascii, int part, int nparts) {
    int n = (RI_NCALLS + nparts - 1) / nparts;
    int id = part * n + vs_choose(0, n - 1, "call"); vs_assume(id < RI_NCALLS && (ascii || id != RI_Basis));
    RT t(ascii);
    t.A.pickNarrow(vs_tier() ? 6 : 3);
    call(t, id);
    vs_assume(t.A.ni > t.A.narrow || (!t.A.narrow && t.A.nbytes == 4));
    t.readBack("each request reads back with the same arguments");
}
static void arrayLengths() {
    RT t(false); static const int ids[] = {RI_PointsGeneralPolygons, RI_MotionBegin, RI_SubdivisionMesh, RI_MakeOcclusion, RI_Blobby, RI_NuPatch};
    int id = ids[vs_choose(0, 5, "call")];
    t.A.alen = vs_choose(0, vs_tier() ? 5 : 3, "length"); t.A.plist = 0; t.A.pickNarrow(2);
    call(t, id);
    t.readBack("array arguments of every length read back the same");
}
static void strLengths(bool ascii) {
    RT t(ascii); t.A.slen = vs_choose(0, 18, "length"); t.A.plist = 0;
    static const int ids[] = {RI_CoordinateSystem, RI_ConnectShaderLayers, RI_MakeOcclusion};
    call(t, ids[vs_choose(0, vs_tier() ? 2 : 1, "call")]);
    t.readBack("string arguments of every length read back the same");
}
static void longStr() {
    RT t(false); int n = vs_choose(0, 3, "length"); static const int L[] = {255, 256, 257, 300};
    char* s = new char[L[n] + 1]; memset(s, 'x', L[n]); s[L[n]] = 0; s[0] = t.A.ch(); s[L[n] - 1] = t.A.ch(); s[200] = t.A.ch();
    Tee tee(t.direct, t.w->firstFilter()); tee.CoordinateSystem(s);
    t.readBack("long strings read back the same");
}
// every interpolation class, type and array size, declared or not, in any order
static void params(bool ascii) {
    RT t(ascii); Tee tee(t.direct, t.w->firstFilter());
    static const Ri::TypeSpec::Type ty[] = {Ri::TypeSpec::Float, Ri::TypeSpec::Point, Ri::TypeSpec::Color, Ri::TypeSpec::Integer, Ri::TypeSpec::String, Ri::TypeSpec::Vector, Ri::TypeSpec::Normal, Ri::TypeSpec::HPoint, Ri::TypeSpec::Matrix};
    Ri::TypeSpec s((Ri::TypeSpec::IClass)vs_choose(0, 5, "class"), ty[vs_choose(0, 8, "type")], vs_choose(1, 2, "array") == 2 ? 13 : 1);
    static const char* const nm[] = {"a", "aParameterWithALongName"};
    Ri::Param p = t.A.param(s, nm[vs_choose(0, 1, "name")], 1);
    tee.Attribute("n", Ri::ParamList(&p, 1));
    t.readBack("parameters read back with the same type, name and values");
}
static void declared() {
    RT t(false); Tee tee(t.direct, t.w->firstFilter());
    static const char* const d[] = {"uniform float", "varying float", "integer[2]", "constant string"};
    tee.Declare("a", d[vs_choose(0, 3, "declared")]);
    if(vs_choose(0, 1, "redeclare")) tee.Declare("a", d[vs_choose(0, 3, "redeclared")]);
    Ri::Param p[2];
    p[0] = t.A.param(vs_choose(0, 1, "int") ? Ri::TypeSpec(Ri::TypeSpec::Uniform, Ri::TypeSpec::Integer, 2) : Ri::TypeSpec(Ri::TypeSpec::Varying, Ri::TypeSpec::Float, 1), "a", 2);
    p[1] = t.A.param(Ri::TypeSpec(Ri::TypeSpec::Uniform, Ri::TypeSpec::Float, 1), "a", 1);
    tee.Attribute("n", Ri::ParamList(p, 2));
    t.readBack("declarations do not change how parameters read back");
}
static void sequences(bool ascii) {
    RT t(ascii); Tee tee(t.direct, t.w->firstFilter());
    static const int ids[] = {RI_Translate, RI_AttributeBegin, RI_Surface, RI_Color, RI_AttributeEnd, RI_Sides};
    t.A.plist = 0;
    for(int i = 0; i < (vs_tier() ? 4 : 3); ++i) riCall(ids[vs_choose(0, 5, "call")], tee, t.A);
    t.readBack("sequences of requests read back in order");
}
static void manyRequests() {
         // every request in one stream: the encoded-request table fills up
    RT t(false); Tee tee(t.direct, t.w->firstFilter()); t.A.plist = 0; t.A.alen = 1;
    for(int r = 0; r < 2; ++r) for(int i = 0; i < RI_NCALLS; ++i) {
        if(i == RI_Procedural || i == RI_PixelFilter || i == RI_ErrorHandler || i == RI_MakeTexture || i == RI_MakeLatLongEnvironment || i == RI_MakeCubeFaceEnvironment || i == RI_ColorSamples) continue;
        if(i < 8 || i % 16 == 0 || i + 3 > RI_NCALLS) riCall(i, tee, t.A);
        else { t.A.zero = true; riCall(i, tee, t.A); t.A.zero = false; }
    }
    t.readBack("a stream using every request reads back the same");
}
// standard bases, bases one element away from a standard one, and other bases
static void basis() {
    RT t(false); Tee tee(t.direct, t.w->firstFilter());
    static const char* const nm[] = {"bezier", "b-spline", "catmull-rom", "hermite", "power"};
    RtFloat m[4][4], o[4][4]; int k = vs_choose(0, 5, "kind");
    if(k < 5) {
        memcpy(m, *t.w->getBasis(nm[k]), sizeof m);
        int e = vs_choose(0, 16, "element");
        if(e < 16) { m[e / 4][e % 4] = t.A.f(); uint32_t b; memcpy(&b, &m[e / 4][e % 4], 4); vs_assume(b != 0x80000000u); }   // 0 and -0 are the same basis
    } else { for(int i = 0; i < 16; ++i) m[i / 4][i % 4] = t.A.f(); vs_assume(m[0][0] > 2); }
    memcpy(o, *t.w->getBasis(nm[vs_choose(0, 4, "other")]), sizeof o);
    if(vs_choose(0, 1, "swap")) tee.Basis(o, 1, m, 3); else tee.Basis(m, 3, o, 1);
    t.readBack("bases read back with the same values");
}
extern "C" void harness() {
    int c = vs_case();
    if(c < 8) { allCalls(false, c, 8); return; }
    if(c < 12) { allCalls(true, c - 8, 4); return; }
    switch(c) {
        case 12: arrayLengths(); break; case 13: strLengths(false); break; case 14: strLengths(true); break; case 15: longStr(); break;
        case 16: params(false); break; case 17: params(true); break; case 18: declared(); break; case 19: sequences(false); break; case 20: sequences(true); break; case 21: manyRequests(); break; case 22: basis(); break;
    }
}
