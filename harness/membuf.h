// A std::istream over a byte buffer, with a controllable amount of
// non-blocking input (showmanyc), so that buffering schedules can be symbolic.
#ifndef MEMBUF_H
#define MEMBUF_H
#include <istream>
#include <streambuf>
struct MemBuf : std::streambuf {
    MemBuf(const void* p, size_t n) { char* c = (char*)p; setg(c, c, c + n); }
};
struct MemIn : private MemBuf, public std::istream {
    MemIn(const void* p, size_t n) : MemBuf(p, n), std::istream(static_cast<MemBuf*>(this)) {}
};
#endif
