// C03: the input buffer delivers exactly the stream's bytes, and line/column
// positions depend only on the bytes, never on how they were buffered.
#include "vsym.h"
#include "ribinputbuffer.h"
#include "ribtokenizer.h"
#include "membuf.h"
#include <cstring>
#include <string>
using namespace Aqsis;
// hands out its bytes in chunks chosen by the harness; between chunks the
// non-blocking count is 0, as on a pipe
struct ChunkBuf : std::streambuf {
    const unsigned char* p; int n, at, ci; const int* chunks; int nch;
    ChunkBuf(const unsigned char* p, int n, const int* ch, int nch) : p(p), n(n), at(0), ci(0), chunks(ch), nch(nch) {}
    int_type underflow() {
        if(at >= n) return traits_type::eof();
        int k = ci < nch ? chunks[ci++] : n - at;
        if(k > n - at) k = n - at;
        char* b = (char*)p + at; at += k;
        setg(at - k > 0 ? b - 1 : b, b, b + k);
        return (unsigned char)*b;
    }
};
static unsigned char buf[1024];
struct Ref { int line, col; unsigned char prev; Ref() : line(1), col(0), prev(0) {}
    void next(unsigned char c) {
        ++col;
        if(c == '\r' || (c == '\n' && prev != '\r')) { ++line; col = 0; }
        else if(c == '\n') col = 0;
        prev = c;
    } };
static void walk(RibInputBuffer& b, int n, bool ungets, int from) {
    Ref r;
    for(int i = 0; i < n; ++i) {
        unsigned char c = b.get();
        vs_assert(c == buf[i], "bytes delivered in order");
        Ref r0 = r; r.next(buf[i]);
        vs_assert(b.pos().line == r.line && b.pos().col == r.col, "line and column of a character");
        if(ungets && i >= from) {
            b.unget();
            vs_assert(b.pos().line == r0.line && b.pos().col == r0.col, "position after putting a character back");
            unsigned char d = b.get();
            vs_assert(d == buf[i], "a character put back is read again");
            vs_assert(b.pos().line == r.line && b.pos().col == r.col, "position after reading a character again");
        }
    }
    vs_assert(b.get() == RibInputBuffer::eof, "end of file after the last byte");
    vs_reach("end");
}
static void symAt(int i) { buf[i] = vs_u8("b"); vs_assume(i > 0 || buf[i] != 0x1f); }
static void shortStream() {
    int n = vs_choose(0, 5, "n"); bool u = vs_choose(0, 1, "unget");
    for(int i = 0; i < n; ++i) symAt(i);
    MemIn in(buf, n); RibInputBuffer b(in, "s"); walk(b, n, u, 0);
}
static void wrap() {
    // symbolic bytes wherever a buffer of the usual sizes could wrap
    bool u = vs_choose(0, 1, "unget");
    bool second = vs_choose(0, 1, "which wrap"); int n = second ? 518 : 262;
    for(int i = 0; i < n; ++i) buf[i] = 'a';
    static const int at[] = {251, 252, 253, 254, 255, 256, 257, 506, 507, 508, 509, 510, 511, 512, 513};
    int lo = second ? 7 : 0, hi = lo ? 15 : 7;
    for(int i = lo; i < hi; ++i) symAt(at[i]);
    MemIn in(buf, n); RibInputBuffer b(in, "s"); walk(b, n, u, lo ? 500 : 245);
}
static void chunked() {
    int n = vs_choose(1, 5, "n"); int ch[5];
    for(int i = 0; i < 4; ++i) ch[i] = vs_choose(1, 3, "chunk");
    for(int i = 0; i < n; ++i) symAt(i);
    ChunkBuf cb(buf, n, ch, 4); std::istream in(&cb); RibInputBuffer b(in, "s"); walk(b, n, true, 0);
}
static void chunkedWrap() {
    int n = 262, ch[3];
    ch[0] = vs_choose(248, 258, "chunk"); ch[1] = vs_choose(1, 3, "chunk"); ch[2] = vs_choose(1, 3, "chunk");
    for(int i = 0; i < n; ++i) buf[i] = 'a';
    for(int i = 251; i < 258; ++i) symAt(i);
    ChunkBuf cb(buf, n, ch, 3); std::istream in(&cb); RibInputBuffer b(in, "s"); walk(b, n, true, 240);
}
// a token's reported position does not depend on what buffering precedes it
static void tokenPos() {
    int pad = vs_choose(246, 258, "pad"); int n = 0;
    for(int i = 0; i < pad; ++i) buf[n++] = ' ';
    Ref r; for(int i = 0; i < pad; ++i) r.next(' ');
    for(int i = 0; i < 4; ++i) { unsigned char c = "\r\n \t"[vs_choose(0, 3, "ws")]; buf[n++] = c; r.next(c); }
    buf[n++] = 'F'; r.next('F'); int el = r.line, ec = r.col;
    buf[n++] = ' '; buf[n++] = '1';
    MemIn in(buf, n); RibTokenizer t; t.pushInput(in, "file.rib");
    bool pk = vs_choose(0, 1, "peek first");
    if(pk) t.peek();
    vs_assert(t.get().type() == RibToken::REQUEST, "token");
    char num[24]; std::string want = "file.rib:";
    auto app = [&](int v) { int k = 0; do { num[k++] = '0' + v % 10; v /= 10; } while(v); while(k) want += num[--k]; };
    app(el); want += " (col "; app(ec); want += ")";
    vs_assert(t.streamPos() == want, "reported stream position of a token");
    if(vs_choose(0, 1, "peek next")) { t.peek(); vs_assert(t.streamPos() == want, "peeking does not move the reported position"); }
    vs_reach("end");
}
// nested inputs: an archive read in the middle does not disturb the outer stream
static void nested() {
    static unsigned char inner[4];
    int k = vs_choose(0, 3, "inner len"); bool pk = vs_choose(0, 1, "peek");
    const char* o = "A [ 5"; int n = 0; while(o[n]) { buf[n] = o[n]; ++n; }
    for(int i = 0; i < k; ++i) { inner[i] = vs_u8("i"); unsigned char c = inner[i]; vs_assume(c == 'x' || c == '[' || c == '3' || c == '\n' || c == '"'); }
    MemIn in(buf, n), in2(inner, k); RibTokenizer t; t.pushInput(in, "o");
    vs_assert(t.get().type() == RibToken::REQUEST, "outer request");
    if(pk) t.peek();
    std::string p0 = t.streamPos();
    t.pushInput(in2, "i");
    for(int i = 0; i < 6; ++i) { RibToken::Type ty = t.get().type(); if(ty == RibToken::ENDOFFILE || ty == RibToken::ERROR) break; }
    t.popInput();
    vs_assert(t.streamPos() == p0, "position restored after a nested input");
    vs_assert(t.get().type() == RibToken::ARRAY_BEGIN, "outer token after a nested input");
    const RibToken& q = t.get();
    vs_assert(q.type() == RibToken::INTEGER && q.intVal() == 5, "outer token after a nested input");
    vs_assert(t.get().type() == RibToken::ENDOFFILE, "outer end");
    vs_reach("end");
}
void harness() {
    switch(vs_case()) { case 0: shortStream(); break; case 1: wrap(); break; case 2: chunked(); break; case 3: chunkedWrap(); break; case 4: tokenPos(); break; case 5: nested(); break; }
}
