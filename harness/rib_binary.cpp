// C01: every encoding of RISpec appendix C.2 decodes to the token it denotes
// and consumes exactly its own bytes.
#include "vsym.h"
#include "membuf.h"
#include "ribtokenizer.h"
#include <cstring>
using namespace Aqsis;
static unsigned char buf[512]; static int n = 0;
static void put(unsigned char c) { buf[n++] = c; }
static unsigned char putSym(const char* nm) { unsigned char c = vs_u8(nm); put(c); return c; }
// every stream ends with the integer token 42, so over/under-reading shows
static void sentinel() { put(0200); put(42); }
struct Lex {
    MemIn in; RibTokenizer t;
    Lex() : in(buf, n) { t.pushInput(in, "s"); }
    void checkEnd() {
        const RibToken& k = t.get();
        vs_assert(k.type() == RibToken::INTEGER && k.intVal() == 42, "the byte after the token is the start of the next token");
        vs_assert(t.get().type() == RibToken::ENDOFFILE, "end of stream after the last token");
        vs_reach("end");
    }
};
static float asFloat(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t bitsOf(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static bool sameFloat(float a, float b) { return bitsOf(a) == bitsOf(b) || (a != a && b != b); }
static void lead() { put(' '); }   // keeps the gzip magic test away from the token

static void integers() {
    int w = vs_choose(1, 4, "width");
    put(0200 + w - 1);
    uint32_t v = 0;
    for(int i = 0; i < w; ++i) v = (v << 8) | putSym("b");
    sentinel(); Lex l;
    const RibToken& k = l.t.get();
    vs_assert(k.type() == RibToken::INTEGER, "0200+w is an integer token");
    vs_assert(k.intVal() == (int)v, "big-endian integer value");
    l.checkEnd();
}
static void fixedPoint() {
    int w = vs_choose(1, 4, "width"), d = vs_choose(1, 3, "radix");
    put(0200 + 4 * d + w - 1);
    uint32_t v = 0;
    for(int i = 0; i < w; ++i) v = (v << 8) | putSym("b");
    sentinel(); Lex l;
    const RibToken& k = l.t.get();
    vs_assert(k.type() == RibToken::FLOAT, "fixed point numbers are float tokens");
    // exact value v / 256^d is representable in double; the nearest float is expected
    double exact = (double)v / (double)(1u << (8 * d));
    vs_assert(k.floatVal() == (float)exact, "fixed point value");
    l.checkEnd();
}
static void float32() {
    put(0244);
    uint32_t v = 0;
    for(int i = 0; i < 4; ++i) v = (v << 8) | putSym("b");
    sentinel(); Lex l;
    const RibToken& k = l.t.get();
    vs_assert(k.type() == RibToken::FLOAT, "0244 is a float token");
    vs_assert(sameFloat(k.floatVal(), asFloat(v)), "IEEE single value");
    l.checkEnd();
}
static void float64() {
    put(0245);
    uint64_t v = 0;
    for(int i = 0; i < 8; ++i) v = (v << 8) | putSym("b");
    double dv; memcpy(&dv, &v, 8);
    vs_assume(dv == dv);
    sentinel(); Lex l;
    const RibToken& k = l.t.get();
    vs_assert(k.type() == RibToken::FLOAT, "0245 is a float token");
    float f = (float)dv;
    vs_assert(k.floatVal() == f, "IEEE double value rounded to single");
    l.checkEnd();
}
static void shortString() {
    int w = vs_choose(0, vs_tier() ? 15 : 15, "len");
    put(0220 + w); int at = n;
    for(int i = 0; i < w; ++i) putSym("c");
    sentinel(); Lex l;
    const RibToken& k = l.t.get();
    vs_assert(k.type() == RibToken::STRING, "0220+w is a string token");
    vs_assert((int)k.stringVal().size() == w, "string length");
    for(int i = 0; i < w; ++i) vs_assert((unsigned char)k.stringVal()[i] == buf[at + i], "string bytes are taken verbatim");
    l.checkEnd();
}
static void longString() {
    int lb = vs_choose(1, 4, "lenbytes");
    int len = vs_choose(0, 3, "lensel"); static const int lens[] = {0, 16, 17, 40};
    len = lens[len];
    put(0240 + lb - 1);
    for(int i = lb - 1; i >= 0; --i) put(i == 0 ? len : 0);
    int at = n;
    for(int i = 0; i < len; ++i) putSym("c");
    sentinel(); Lex l;
    const RibToken& k = l.t.get();
    vs_assert(k.type() == RibToken::STRING, "0240+l is a string token");
    vs_assert((int)k.stringVal().size() == len, "string length");
    for(int i = 0; i < len; ++i) vs_assert((unsigned char)k.stringVal()[i] == buf[at + i], "string bytes are taken verbatim");
    l.checkEnd();
}
// a 300-byte string: length needs two bytes and the input buffer wraps
static void longString2() {
    put(0241); put(1); put(44);
    int at = n; static const int L = 300;
    for(int i = 0; i < L; ++i) { if(i >= 245 && i < 259) putSym("c"); else put('a' + i % 26); }
    sentinel(); Lex l;
    const RibToken& k = l.t.get();
    vs_assert(k.type() == RibToken::STRING && (int)k.stringVal().size() == L, "two byte string length");
    for(int i = 0; i < L; ++i) vs_assert((unsigned char)k.stringVal()[i] == buf[at + i], "string bytes are taken verbatim");
    l.checkEnd();
}
static void encodedRequests() {
    // two definitions with arbitrary codes, then a lookup with a third arbitrary code
    unsigned char c1, c2, c3;
    put(0314); c1 = putSym("code1"); put(0222); unsigned char a = putSym("r"); unsigned char b = putSym("r");
    put(0314); c2 = putSym("code2"); put('"'); put('X'); put('y'); put('z'); put('"');
    put(0246); c3 = putSym("code3");
    // any first code; the others equal to it or near / far from it (thorough: second one free)
    if(!vs_tier()) vs_assume(c2 == c1 || c2 == (c1 ^ 1));
    vs_assume(c3 == c1 || c3 == c2 || c3 == (unsigned char)(c1 + 128));
    sentinel(); Lex l;
    const RibToken& k = l.t.get();
    if(c3 == c2) {
        vs_reach("second");
        vs_assert(k.type() == RibToken::REQUEST && k.stringVal() == "Xyz", "the latest definition of a request code is used");
    } else if(c3 == c1) {
        vs_reach("first");
        vs_assert(k.type() == RibToken::REQUEST && k.stringVal().size() == 2, "request code resolves to its definition");
        vs_assert((unsigned char)k.stringVal()[0] == a && (unsigned char)k.stringVal()[1] == b, "request name");
    } else {
        vs_reach("undefined");
        vs_assert(k.type() == RibToken::ERROR, "undefined request code is an error token");
    }
    l.checkEnd();
}
static void encodedStrings() {
    int w1 = vs_choose(1, 2, "w1"), w2 = vs_choose(1, 2, "w2"), w3 = vs_choose(1, 2, "w3");
    uint32_t c1 = 0, c2 = 0, c3 = 0;
    put(0315 + w1 - 1); for(int i = 0; i < w1; ++i) c1 = c1 << 8 | putSym("code1");
    put(0221); unsigned char a = putSym("s");
    put(0315 + w2 - 1); for(int i = 0; i < w2; ++i) c2 = c2 << 8 | putSym("code2");
    put(0220);                                   // the empty string is a legal value
    put(0317 + w3 - 1); for(int i = 0; i < w3; ++i) c3 = c3 << 8 | putSym("code3");
    sentinel(); Lex l;
    const RibToken& k = l.t.get();
    if(c3 == c2) { vs_reach("second"); vs_assert(k.type() == RibToken::STRING && k.stringVal().empty(), "string code resolves to its latest definition"); }
    else if(c3 == c1) { vs_reach("first"); vs_assert(k.type() == RibToken::STRING && k.stringVal().size() == 1 && (unsigned char)k.stringVal()[0] == a, "string code resolves to its definition"); }
    else { vs_reach("undefined"); vs_assert(k.type() == RibToken::ERROR, "undefined string code is an error token"); }
    l.checkEnd();
}
static void floatArray() {
    int lb = vs_choose(1, 4, "lenbytes"), len = vs_choose(0, 4, "len");
    put(0310 + lb - 1);
    for(int i = lb - 1; i >= 0; --i) put(i == 0 ? len : 0);
    uint32_t v[8];
    for(int j = 0; j < len; ++j) { v[j] = 0; for(int i = 0; i < 4; ++i) v[j] = (v[j] << 8) | putSym("b"); }
    sentinel(); Lex l;
    vs_assert(l.t.get().type() == RibToken::ARRAY_BEGIN, "float array starts with an array token");
    for(int j = 0; j < len; ++j) { const RibToken& k = l.t.get(); vs_assert(k.type() == RibToken::FLOAT && sameFloat(k.floatVal(), asFloat(v[j])), "float array element"); }
    vs_assert(l.t.get().type() == RibToken::ARRAY_END, "float array ends after its elements");
    l.checkEnd();
}
static void reserved() {
    unsigned char c = putSym("code");
    bool res = (c >= 0247 && c <= 0307) || (c >= 0321 && c <= 0376);
    vs_assume(res);
    sentinel(); Lex l;
    vs_assert(l.t.get().type() == RibToken::ERROR, "reserved byte is an error token");
    l.checkEnd();
}
static void badDefs() {
    // a definition whose value is not a string is an error, and an empty request name too
    int kind = vs_choose(0, 2, "kind");
    if(kind == 0) { put(0314); putSym("code"); put(0200); putSym("v"); }
    else if(kind == 1) { put(0314); putSym("code"); put(0220); }
    else { put(0315); putSym("code"); put(0200); putSym("v"); }
    sentinel(); Lex l;
    vs_assert(l.t.get().type() == RibToken::ERROR, "malformed definition is an error token");
    l.checkEnd();
}
// peek/unget do not change the token sequence
static void peekUnget() {
    put(0201); putSym("b"); putSym("b"); put(0221); putSym("c"); put('['); put(0244); for(int i = 0; i < 4; ++i) putSym("f"); put(']');
    sentinel(); Lex l; Lex m;
    for(int i = 0; i < 5; ++i) {
        const RibToken& a = l.t.get();
        int op = vs_choose(0, 2, "op");
        if(op == 0) m.t.peek();
        if(op == 1) { m.t.get(); m.t.unget(); }
        const RibToken& b = m.t.get();
        vs_assert(a.type() == b.type(), "peek and unget keep the token");
        if(a.type() == RibToken::INTEGER) vs_assert(a.intVal() == b.intVal(), "peek and unget keep the value");
        if(a.type() == RibToken::FLOAT) vs_assert(sameFloat(a.floatVal(), b.floatVal()), "peek and unget keep the value");
        if(a.type() == RibToken::STRING) vs_assert(a.stringVal() == b.stringVal(), "peek and unget keep the value");
    }
    l.checkEnd();
}
// request names of 1..3 bytes, defined by each kind of string
static void requestNames() {
    int len = vs_choose(1, 3, "len"), form = vs_choose(0, 2, "form"); unsigned char c = 0, nm[3]; put(0314); c = putSym("code"); vs_assume(c == 0 || c == 200 || c == 255);
    if(form == 0) put(0220 + len); else if(form == 1) { put(0240); put(len); } else put('"');
    for(int i = 0; i < len; ++i) { if(form == 2) { put('A' + i); nm[i] = 'A' + i; } else nm[i] = putSym("r"); } if(form == 2) put('"');
    put(0246); put(c); sentinel(); Lex l; const RibToken& k = l.t.get();
    vs_assert(k.type() == RibToken::REQUEST && (int)k.stringVal().size() == len, "request code resolves to its definition");
    for(int i = 0; i < len; ++i) vs_assert((unsigned char)k.stringVal()[i] == nm[i], "request name");
    l.checkEnd();
}
extern "C" void harness() {
    lead();
    switch(vs_case()) {
        case 0: integers(); break;
        case 1: fixedPoint(); break;
        case 2: float32(); break;
        case 3: float64(); break;
        case 4: shortString(); break;
        case 5: longString(); break;
        case 6: longString2(); break;
        case 7: encodedRequests(); break;
        case 8: encodedStrings(); break;
        case 9: floatArray(); break;
        case 10: reserved(); break;
        case 11: badDefs(); break;
        case 12: peekUnget(); break;
        case 13: requestNames(); break;
    }
}
