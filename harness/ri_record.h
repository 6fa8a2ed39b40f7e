// A renderer that records every interface call, and symbolic arguments for
// every call; the per-call code (ri_calls.inc) is generated from ricxx.h.
#ifndef RI_RECORD_H
#define RI_RECORD_H
#include "vsym.h"
#include "membuf.h"
#include <aqsis/riutil/ricxx.h>
#include <aqsis/riutil/ricxx_filter.h>
#include <aqsis/riutil/errorhandler.h>
#include <aqsis/riutil/tokendictionary.h>
#include <cstring>
#include <string>
#include <vector>
#include <ostream>

struct MemOut : private std::streambuf, public std::ostream {
    char* b; size_t cap;
    MemOut(size_t n) : std::ostream(static_cast<std::streambuf*>(this)), b(new char[n]), cap(n) { setp(b, b + n); }
    size_t size() const { return pptr() - pbase(); }
};

struct RecLog {
    std::vector<uint32_t> w;           // flat record: tags, lengths, values
    int ncalls; bool overflow; const void* procData;
    RecLog() : ncalls(0), overflow(false), procData(0) { w.reserve(256); }
    void u(uint32_t x) { w.push_back(x); }
    void str(const char* s) { size_t n = strlen(s); u((uint32_t)n); for(size_t i = 0; i < n; ++i) u((unsigned char)s[i]); }
    void f(float x) { uint32_t b; memcpy(&b, &x, 4); u(b); }
    void begin(const char* name) { u(0xca110000u); str(name); ncalls++; }
    void end() {}
    void arg(const char* s) { if(!s) { u(0xdead); return; } str(s); }
    void arg(int i) { u((uint32_t)i); }
    void arg(short i) { u((uint32_t)(int)i); }
    void arg(float x) { f(x); }
    void argM(RtConstBasis m) { for(int i = 0; i < 16; ++i) f(m[i / 4][i % 4]); }
    void argB(const RtFloat* b) { for(int i = 0; i < 6; ++i) f(b[i]); }
    void argC(const RtFloat* b) { for(int i = 0; i < 3; ++i) f(b[i]); }
    void arg(const Aqsis::Ri::IntArray& a) { u((uint32_t)a.size()); for(size_t i = 0; i < a.size(); ++i) u((uint32_t)a[i]); }
    void arg(const Aqsis::Ri::FloatArray& a) { u((uint32_t)a.size()); for(size_t i = 0; i < a.size(); ++i) f(a[i]); }
    void arg(const Aqsis::Ri::StringArray& a) { u((uint32_t)a.size()); for(size_t i = 0; i < a.size(); ++i) str(a[i]); }
    void arg(const Aqsis::Ri::ParamList& p) {
        u((uint32_t)p.size());
        for(size_t i = 0; i < p.size(); ++i) {
            u(p[i].spec().iclass); u(p[i].spec().type); u(p[i].spec().arraySize); str(p[i].name());
            switch(p[i].spec().storageType()) {
                case Aqsis::Ri::TypeSpec::Integer: arg(p[i].intData()); break;
                case Aqsis::Ri::TypeSpec::Float: arg(p[i].floatData()); break;
                case Aqsis::Ri::TypeSpec::String: arg(p[i].stringData()); break;
                default: u(0xbad);
            }
        }
    }
    void arg(RtFilterFunc p) { u((uint32_t)(size_t)p); }
    void arg(RtErrorFunc p) { u((uint32_t)(size_t)p); }
    void arg(RtArchiveCallback p) { u(p != 0); }
    void arg(RtPointer p) { procData = p; }
    void arg(RtProcSubdivFunc p) { int n = nProcArgs(p); u((uint32_t)(size_t)p); for(int i = 0; i < n; ++i) str(((const char* const*)procData)[i]); }
    void arg(RtProcFreeFunc p) {}
    virtual int nProcArgs(RtProcSubdivFunc p) { return 0; }
};
inline void recSame(const RecLog& a, const RecLog& b, const char* what) {
    vs_assert(a.w.size() == b.w.size(), what);
    bool ok = true;
    for(size_t i = 0; i < a.w.size(); ++i) ok &= a.w[i] == b.w[i];
    vs_assert(ok, what);
}

static void riNoFree(RtPointer) {}
struct RiArgs {
    const Aqsis::Ri::RendererServices* svc;
    bool ascii, zero, any = false; int alen, slen, plist; // array length, string length, parameter list shape
    RiArgs(const Aqsis::Ri::RendererServices* s) : svc(s), ascii(false), zero(false), narrow(-1), nbytes(4), ni(0), alen(2), slen(1), plist(1) {}
    // argument storage: may be given back (freeAll) once a call has returned
    std::vector<void*> owned; bool procKeep = false;
    void* al(size_t n) { void* p = ::operator new(n); if(!procKeep) owned.push_back(p); return p; }
    template<class T> T* al(int n) { return (T*)al(sizeof(T) * (n > 0 ? n : 1)); }
    const char* lit(const char* s) { size_t n = strlen(s) + 1; char* p = al<char>((int)n); memcpy(p, s, n); return p; }
    void freeAll() { for(size_t i = 0; i < owned.size(); ++i) ::operator delete(owned[i]); owned.clear(); }
    char ch() { if(zero) return 65; char c = (char)vs_u8("c"); if(ascii) vs_assume(c >= 32 && c < 127 && c != '"' && c != '\\'); else vs_assume(c != 0); return c; }
    const char* s(int n) { char* p = al<char>(n + 1); for(int i = 0; i < n; ++i) p[i] = ch(); p[n] = 0; return p; }
    void pickNarrow(int max) { narrow = vs_choose(0, max - 1, "narrow"); if(ascii) return; nbytes = vs_choose(1, 4, "bytes"); vs_assume(nbytes < 4 || narrow == 0); }
    float f() { if(zero) return 0.5f; if(!ascii) return vs_f32("f"); static const float v[] = {0, -1, 2.5f, 1e10f, 0.1f, 1e-30f}; static int k = 0; return v[k++ % 6]; }
    // integers: any value needing four bytes, except that the narrow-th one of a
    // call may be any value needing nbytes bytes (the encoded length is part of the choice)
    int narrow, nbytes, ni;
    int i() {
        if(zero) return 3;
        int v = vs_i32("i"); if(any) return v;
        if(ascii) { if(ni++ != narrow) return 1000 + ni; vs_assume(v >= -99 && v <= 99); return v; }
        int n = ni++ == narrow ? nbytes : 4;
        vs_assume(n == 4 ? ((unsigned)v >> 24) != 0 : n == 1 ? (unsigned)v < 256 : ((unsigned)v >> (8 * n)) == 0 && ((unsigned)v >> (8 * n - 8)) != 0);
        return v;
    }
    RtConstBasis& mat(const char*) { RtFloat (*m)[4] = (RtFloat (*)[4])al<RtFloat>(16); for(int i = 0; i < 16; ++i) m[i / 4][i % 4] = f(); return *(RtConstBasis*)m; }
    const RtFloat* fl(int n, const char*) { RtFloat* p = al<RtFloat>(n); for(int k = 0; k < n; ++k) p[k] = f(); return p; }
    RtInt make(RtInt*, const char*, const char*) { return i(); }
    RtBoolean make(RtBoolean*, const char*, const char*) { return zero ? 1 : (RtBoolean)vs_choose(0, 1, "flag"); }
    RtFloat make(RtFloat*, const char*, const char*) { return f(); }
    const char* make(const char**, const char* call, const char* a) { if(!strcmp(call, "ArchiveRecord")) return !strcmp(a, "type") ? "comment" : "note"; if(!strcmp(call, "Declare")) return !strcmp(a, "name") ? "zz" : "uniform float"; return s(slen); }
    Aqsis::Ri::IntArray make(Aqsis::Ri::IntArray*, const char*, const char*) { RtInt* p = al<RtInt>(alen); for(int k = 0; k < alen; ++k) p[k] = i(); return Aqsis::Ri::IntArray(p, alen); }
    Aqsis::Ri::FloatArray make(Aqsis::Ri::FloatArray*, const char*, const char* nm) { return Aqsis::Ri::FloatArray(fl(alen, nm), alen); }
    Aqsis::Ri::StringArray make(Aqsis::Ri::StringArray*, const char*, const char*) { const char** p = al<const char*>(alen); for(int k = 0; k < alen; ++k) p[k] = s(slen); return Aqsis::Ri::StringArray(p, alen); }
    Aqsis::Ri::Param param(Aqsis::Ri::TypeSpec t, const char* name, int n) {
        switch(t.storageType()) {
            case Aqsis::Ri::TypeSpec::Integer: { int sv = alen; alen = n; Aqsis::Ri::IntArray a = make((Aqsis::Ri::IntArray*)0, "", ""); alen = sv; return Aqsis::Ri::Param(t, name, a); }
            case Aqsis::Ri::TypeSpec::String: { int sv = alen; alen = n; Aqsis::Ri::StringArray a = make((Aqsis::Ri::StringArray*)0, "", ""); alen = sv; return Aqsis::Ri::Param(t, name, a); }
            default: return Aqsis::Ri::Param(t, name, Aqsis::Ri::FloatArray(fl(n, ""), n));
        }
    }
    Aqsis::Ri::ParamList make(Aqsis::Ri::ParamList*, const char*, const char*) {
        using namespace Aqsis::Ri;
        if(!plist) return ParamList();
        Param* p = al<Param>(3);
        p[0] = param(TypeSpec(TypeSpec::Varying, TypeSpec::Integer, 2), lit("someInts"), 2);
        p[1] = param(TypeSpec(TypeSpec::Vertex, TypeSpec::Point, 1), lit("P"), 3);
        p[2] = param(TypeSpec(TypeSpec::Uniform, TypeSpec::String, 1), lit("aRatherLongParameterName"), 1);
        return ParamList(p, 3);
    }
    RtFilterFunc make(RtFilterFunc*, const char*, const char*) { static const char* const n[] = {"box", "gaussian", "triangle", "mitchell", "catmull-rom", "sinc", "bessel", "disk"}; return svc->getFilterFunc(n[zero ? 0 : vs_choose(0, 7, "filter")]); }
    RtErrorFunc make(RtErrorFunc*, const char*, const char*) { static const char* const n[] = {"ignore", "print", "abort"}; return svc->getErrorFunc(n[zero ? 0 : vs_choose(0, 2, "handler")]); }
    RtProcSubdivFunc make(RtProcSubdivFunc*, const char*, const char*) { static const char* const n[] = {"DelayedReadArchive", "RunProgram", "DynamicLoad"}; return svc->getProcSubdivFunc(n[zero ? 0 : vs_choose(0, 2, "subdiv")]); }
    RtProcFreeFunc make(RtProcFreeFunc*, const char*, const char*) { return &riNoFree; }
    RtPointer make(RtPointer*, const char*, const char*) { procKeep = true; const char** p = al<const char*>(2); p[0] = s(2); p[1] = s(1); procKeep = false; return p; }
    RtArchiveCallback make(RtArchiveCallback*, const char*, const char*) { return 0; }
};
#include "ri_calls.inc"
struct Recorder : RecMethods {
    const Aqsis::Ri::RendererServices* svc;
    Recorder(const Aqsis::Ri::RendererServices* s = 0) : svc(s) {}
    virtual int nProcArgs(RtProcSubdivFunc p) { return p == svc->getProcSubdivFunc("DelayedReadArchive") ? 1 : 2; }
    virtual RtVoid ArchiveRecord(RtConstToken type, const char* string) { begin("ArchiveRecord"); arg(type); arg(string); }
};
struct CountErrors : Aqsis::Ri::ErrorHandler {
    int n; int lastCode; std::string last;
    CountErrors() : Aqsis::Ri::ErrorHandler(Aqsis::Ri::ErrorHandler::Warning), n(0), lastCode(0) {}
    virtual void dispatch(int code, const std::string& m) { n++; lastCode = code; last = m; }
};
// services for the reading side: own token dictionary and error handler
struct ReadSvc : Aqsis::Ri::RendererServices {
    Aqsis::TokenDict dict; CountErrors err; const Aqsis::Ri::RendererServices* base; Aqsis::Ri::Renderer* first;
    ReadSvc(const Aqsis::Ri::RendererServices* b) : base(b), first(0) {}
    virtual Aqsis::Ri::ErrorHandler& errorHandler() { return err; }
    virtual RtFilterFunc getFilterFunc(RtConstToken n) const { return base->getFilterFunc(n); }
    virtual RtConstBasis* getBasis(RtConstToken n) const { return base->getBasis(n); }
    virtual RtErrorFunc getErrorFunc(RtConstToken n) const { return base->getErrorFunc(n); }
    virtual RtProcSubdivFunc getProcSubdivFunc(RtConstToken n) const { return base->getProcSubdivFunc(n); }
    virtual Aqsis::Ri::TypeSpec getDeclaration(RtConstToken t, const char** b = 0, const char** e = 0) const { return dict.lookup(t, b, e); }
    virtual Aqsis::Ri::Renderer& firstFilter() { return *first; }
    virtual void addFilter(const char*, const Aqsis::Ri::ParamList&) {}
    virtual void addFilter(Aqsis::Ri::Filter&) {}
    virtual void parseRib(std::istream&, const char*, Aqsis::Ri::Renderer&) {}
};
#endif
