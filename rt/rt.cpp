// Run-time support for symbolic execution: everything the code under test
// takes from libc / libstdc++.so, as bitcode.  Standard templates are
// instantiated from the libstdc++ headers; the non-template rest is written
// here.  None of it is linked into native replays.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <cstdint>
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
#include <list>
#include <map>
#include <locale>
#include <ios>
#include <streambuf>
#include <istream>
#include <ostream>
#include <sstream>
#include <functional>
#include <memory>
#include <system_error>
#include <unordered_map>

extern "C" {
void* malloc(size_t); void free(void*);
void* __vs_end_catch(void** dtor);
size_t vs_memo_fmt_double(char*, size_t, double, int, int);
bool vs_issym(unsigned long); bool vs_issymf(double);
void vs_unmodelled_rt();
}

extern "C" {
int __cxa_guard_acquire(uint64_t* g) { return *(char*)g == 0; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t*) {}
void __cxa_end_catch() { void* d = 0; void* o = __vs_end_catch(&d); if(o) { if(d) ((void (*)(void*))d)(o); free(o); } }
void* __dso_handle = 0;
}

// ---------------------------------------------------------------- RTTI
namespace __cxxabiv1 {
struct VClass { void* vt; const char* name; };
struct VSi { void* vt; const char* name; VClass* base; };
struct VBase { VClass* base; long off; };
struct VVmi { void* vt; const char* name; unsigned flags, n; VBase b[1]; };
}
extern "C" { extern char _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[], _ZTVN10__cxxabiv117__class_type_infoE[]; }
using namespace __cxxabiv1;
static const char* findSub(const char* obj, VClass* have, VClass* want, int& n) {
    if(have == want || have->name == want->name || !strcmp(have->name, want->name)) { ++n; return obj; }
    if((char*)have->vt == _ZTVN10__cxxabiv120__si_class_type_infoE + 16) return findSub(obj, ((VSi*)have)->base, want, n);
    if((char*)have->vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16) {
        VVmi* v = (VVmi*)have; const char* r = 0;
        for(unsigned i = 0; i < v->n; ++i) {
            long off = v->b[i].off >> 8;
            if(v->b[i].off & 1) off = *(long*)(*(char**)obj + off);
            const char* q = findSub(obj + off, v->b[i].base, want, n);
            if(q && !r) r = q;
        }
        return r;
    }
    return 0;
}
extern "C" void* __dynamic_cast(const void* p, const void*, const void* dst, long) {
    char** vt = *(char***)p;
    const char* whole = (const char*)p + (long)vt[-2];
    VClass* ti = (VClass*)vt[-1];
    int n = 0;
    return (void*)findSub(whole, ti, (VClass*)dst, n);
}
namespace std {
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

// ---------------------------------------------------------------- exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* dupn(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = dupn("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = dupn(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dupn(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupn(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* q = dupn(o._M_p, strlen(o._M_p)); free((void*)_M_p); _M_p = q; return *this; }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = dupn("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
#define EXB(C, B) C::C(const string& s) : B() , _M_msg(s) {} C::C(const char* s) : B(), _M_msg(s, strlen(s)) {} C::C(C&& o) noexcept : B(), _M_msg((__cow_string&&)o._M_msg) {} C& C::operator=(C&& o) noexcept { _M_msg = (__cow_string&&)o._M_msg; return *this; } C::C(const C& o) noexcept : B(), _M_msg(o._M_msg) {} C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } C::~C() noexcept {} const char* C::what() const noexcept { return _M_msg._M_p; }
EXB(logic_error, exception)
EXB(runtime_error, exception)
#define EXD(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
EXD(domain_error, logic_error) EXD(invalid_argument, logic_error) EXD(length_error, logic_error) EXD(out_of_range, logic_error)
EXD(range_error, runtime_error) EXD(overflow_error, runtime_error) EXD(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
const nothrow_t nothrow;

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
    if(this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
        _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while(t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if(x._M_next != &x) {
        if(y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if(y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t pr[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
    size_t r = 14033; for(int i = 13; i >= 0; --i) if(pr[i] >= n) r = pr[i];
    _M_next_resize = r; return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if(ne + ni > _M_next_resize) {
        size_t want = ne + ni > (_M_next_resize ? 0 : 11) ? ne + ni : 11;
        if(want >= nb) return {true, _M_next_bkt(want + 1 > nb * 2 ? want + 1 : nb * 2)};
        _M_next_resize = nb;
    }
    return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for(size_t i = 0; i < n; ++i) h = h * 131 + c[i]; return h; }
// search trees: plain (unbalanced) binary trees; colour only marks the header
typedef _Rb_tree_node_base RB;
static RB* rbInc(RB* x) { if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; } else { RB* y = x->_M_parent; while(x == y->_M_right) { x = y; y = y->_M_parent; } if(x->_M_right != y) x = y; } return x; }
static RB* rbDec(RB* x) { if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if(x->_M_left) { RB* y = x->_M_left; while(y->_M_right) y = y->_M_right; x = y; } else { RB* y = x->_M_parent; while(x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
RB* _Rb_tree_increment(RB* x) noexcept { return rbInc(x); }
const RB* _Rb_tree_increment(const RB* x) noexcept { return rbInc((RB*)x); }
RB* _Rb_tree_decrement(RB* x) noexcept { return rbDec(x); }
const RB* _Rb_tree_decrement(const RB* x) noexcept { return rbDec((RB*)x); }
void _Rb_tree_insert_and_rebalance(const bool left, RB* x, RB* p, RB& h) noexcept {
    x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
    if(left) { p->_M_left = x; if(p == &h) { h._M_parent = x; h._M_right = x; } else if(p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if(p == h._M_right) h._M_right = x; }
}
RB* _Rb_tree_rebalance_for_erase(RB* const z, RB& h) noexcept {
    RB* y = z; RB* x = 0; RB* xp = 0;
    if(!y->_M_left) x = y->_M_right; else if(!y->_M_right) x = y->_M_left; else { y = y->_M_right; while(y->_M_left) y = y->_M_left; x = y->_M_right; }
    if(y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if(y != z->_M_right) { xp = y->_M_parent; if(x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if(h._M_parent == z) h._M_parent = y; else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        y = z;
    } else {
        xp = y->_M_parent; if(x) x->_M_parent = y->_M_parent;
        if(h._M_parent == z) h._M_parent = x; else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if(h._M_left == z) { if(!z->_M_right) h._M_left = z->_M_parent; else { RB* m = x; while(m->_M_left) m = m->_M_left; h._M_left = m; } }
        if(h._M_right == z) { if(!z->_M_left) h._M_right = z->_M_parent; else { RB* m = x; while(m->_M_right) m = m->_M_right; h._M_right = m; } }
    }
    (void)xp;
    return y;
}

// ---------------------------------------------------------------- locale / ios
static char implStore[512];
locale::locale() noexcept { _M_impl = (_Impl*)implStore; }
locale::locale(const locale& o) noexcept { _M_impl = (_Impl*)implStore; }
locale::~locale() noexcept {}
const locale& locale::operator=(const locale&) noexcept { return *this; }
const locale& locale::classic() { static locale l; return l; }
bool locale::operator==(const locale&) const noexcept { return true; }
locale::facet::~facet() {}
// A ctype<char> whose widen/narrow tables are filled in, so that only inline code runs.
static char ctypeStore[sizeof(ctype<char>)] __attribute__((aligned(16)));
struct CtypeFill {
    static ctype<char>* get() {
        static bool done = false;
        ctype<char>* c = (ctype<char>*)ctypeStore;
        if(!done) {
            done = true;
            c->_M_widen_ok = 1; c->_M_narrow_ok = 1;
            for(int i = 0; i < 256; ++i) { c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i; }
            c->_M_table = (const ctype_base::mask*)*__ctype_b_loc();
        }
        return c;
    }
};
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
locale ios_base::imbue(const locale& l) noexcept { return l; }
bool ios_base::sync_with_stdio(bool) { return true; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
template<> istream::sentry::sentry(istream& in, bool noskip);
void __istream_extract(istream& in, char* s, streamsize n) {
    streamsize w = in.width(); if(w > 0 && w < n) n = w;
    istream::sentry se(in, false); streamsize k = 0;
    if(se) { while(k < n - 1) { int c = in.rdbuf()->sgetc(); if(c == -1 || isspace(c)) break; s[k++] = (char)c; in.rdbuf()->snextc(); } }
    s[k] = 0; in.width(0); if(!k) in.setstate(ios_base::failbit);
}
template<> void basic_ios<char>::_M_cache_locale(const locale&) { _M_ctype = CtypeFill::get(); _M_num_put = 0; _M_num_get = 0; }
template<> void basic_ios<char>::init(basic_streambuf<char>* sb) {
    ios_base::_M_init();
    _M_ctype = CtypeFill::get(); _M_num_put = 0; _M_num_get = 0;
    _M_fill = char(); _M_fill_init = false; _M_tie = 0; _M_exception = goodbit; _M_streambuf = sb;
    _M_streambuf_state = sb ? goodbit : badbit;
}
} extern "C" { int vs_exact_ints = 0; } namespace std {
static void padPut(ostream& o, const char* s, streamsize n) {
    streamsize w = o.width(); o.width(0);
    streamsize pad = w > n ? w - n : 0;
    bool left = (o.flags() & ios_base::adjustfield) == ios_base::left;
    streambuf* b = o.rdbuf(); bool bad = false;
    char fill = o.fill();
    if(!left) for(streamsize i = 0; i < pad; ++i) if(b->sputc(fill) == -1) bad = true;
    for(streamsize i = 0; i < n; ++i) if(b->sputc(s[i]) == -1) bad = true;
    if(left) for(streamsize i = 0; i < pad; ++i) if(b->sputc(fill) == -1) bad = true;
    if(bad) o.setstate(ios_base::badbit);
}
static void putUns(ostream& o, bool neg, unsigned long v, bool sgn) {
    if(!o.good()) return;
    char buf[80]; int p = 80;
    if(!vs_exact_ints && vs_issym(v)) { buf[--p] = '#'; padPut(o, buf + p, 1); return; }
    ios_base::fmtflags bf = o.flags() & ios_base::basefield;
    unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10;
    unsigned long u = v;
    if(base != 10 && neg) { u = 0ul - v; neg = false; }
    do { unsigned d = u % base; buf[--p] = (char)(d < 10 ? '0' + d : ((o.flags() & ios_base::uppercase) ? 'A' : 'a') + d - 10); u /= base; } while(u);
    if((o.flags() & ios_base::showbase) && base == 16 && v) { buf[--p] = 'x'; buf[--p] = '0'; }
    if((o.flags() & ios_base::showbase) && base == 8 && v) buf[--p] = '0';
    if(neg) buf[--p] = '-'; else if(sgn && (o.flags() & ios_base::showpos) && base == 10) buf[--p] = '+';
    if(o.width() > 80 - p && (o.flags() & ios_base::adjustfield) == ios_base::internal) { while(80 - p < o.width() && p > 1) buf[--p] = o.fill(); }
    padPut(o, buf + p, 80 - p);
}
template<> template<> ostream& ostream::_M_insert(long v) { if(!vs_exact_ints && vs_issym((unsigned long)v)) { if(good()) padPut(*this, "#", 1); return *this; } putUns(*this, v < 0, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, true); return *this; }
template<> template<> ostream& ostream::_M_insert(unsigned long v) { putUns(*this, false, v, false); return *this; }
template<> template<> ostream& ostream::_M_insert(long long v) { return _M_insert<long>((long)v); }
template<> template<> ostream& ostream::_M_insert(unsigned long long v) { return _M_insert<unsigned long>((unsigned long)v); }
template<> template<> ostream& ostream::_M_insert(bool v) { return _M_insert<long>((long)v); }
template<> template<> ostream& ostream::_M_insert(const void* v) {
    char b[20]; unsigned n = sizeof b; unsigned long u = (unsigned long)v; if(!u) { if(good()) padPut(*this, "0", 1); return *this; }
    while(u) { b[--n] = "0123456789abcdef"[u & 15]; u >>= 4; } b[--n] = 'x'; b[--n] = '0';
    if(good()) padPut(*this, b + n, sizeof b - n); return *this;
}
template<> template<> ostream& ostream::_M_insert(double v) {
    if(!good()) return *this;
    char b[420]; ios_base::fmtflags ff = flags() & ios_base::floatfield;
    size_t n = vs_memo_fmt_double(b, 420, v, (int)precision(), ff == ios_base::fixed ? 1 : ff == ios_base::scientific ? 2 : 0);
    padPut(*this, b, (streamsize)n); return *this;
}
template<> template<> ostream& ostream::_M_insert(long double v) { return _M_insert<double>((double)v); }
template<> ostream& ostream::operator<<(int v) { ios_base::fmtflags bf = flags() & ios_base::basefield; if(bf == ios_base::hex || bf == ios_base::oct) return _M_insert<unsigned long>((unsigned long)(unsigned)v); return _M_insert<long>((long)v); }
template<> ostream& ostream::operator<<(short v) { return _M_insert<long>((long)v); }
// numeric extraction: integers only by hand, floats through strtod on the token
static bool scanTok(istream& in, char* b, int cap, bool flt) {
    istream::sentry se(in, false);
    if(!se) return false;
    int n = 0; streambuf* sb = in.rdbuf();
    for(;;) {
        int c = sb->sgetc();
        if(c == -1) { in.setstate(ios_base::eofbit); break; }
        bool ok = isdigit(c) || ((c == '-' || c == '+') && (n == 0 || (flt && (b[n - 1] == 'e' || b[n - 1] == 'E')))) || (flt && (c == '.' || ((c == 'e' || c == 'E') && n > 0)));
        if(!ok || n >= cap - 1) break;
        b[n++] = (char)c; sb->snextc();
    }
    b[n] = 0;
    bool dig = false; for(int i = 0; i < n; ++i) if(isdigit(b[i])) dig = true;
    if(!dig) { in.setstate(ios_base::failbit); return false; }
    return true;
}
template<> template<> istream& istream::_M_extract(long& v) { char b[64]; if(scanTok(*this, b, 64, false)) v = atol(b); else v = 0; return *this; }
template<> template<> istream& istream::_M_extract(unsigned long& v) { char b[64]; if(scanTok(*this, b, 64, false)) v = (unsigned long)atol(b); else v = 0; return *this; }
template<> template<> istream& istream::_M_extract(unsigned int& v) { char b[64]; if(scanTok(*this, b, 64, false)) v = (unsigned)atol(b); else v = 0; return *this; }
template<> template<> istream& istream::_M_extract(unsigned short& v) { char b[64]; if(scanTok(*this, b, 64, false)) v = (unsigned short)atol(b); else v = 0; return *this; }
template<> template<> istream& istream::_M_extract(long long& v) { char b[64]; if(scanTok(*this, b, 64, false)) v = atol(b); else v = 0; return *this; }
template<> template<> istream& istream::_M_extract(float& v) { char b[64]; if(scanTok(*this, b, 64, true)) v = (float)strtod(b, 0); else v = 0; return *this; }
template<> template<> istream& istream::_M_extract(double& v) { char b[64]; if(scanTok(*this, b, 64, true)) v = strtod(b, 0); else v = 0; return *this; }
template<> template<> istream& istream::_M_extract(bool& v) { char b[64]; if(scanTok(*this, b, 64, false)) v = atol(b) != 0; else v = false; return *this; }
template<> istream& istream::operator>>(int& v) { long l = 0; _M_extract<long>(l); v = (int)l; return *this; }
template<> istream& istream::operator>>(short& v) { long l = 0; _M_extract<long>(l); v = (short)l; return *this; }
template<> istream::sentry::sentry(istream& in, bool noskip) : _M_ok(false) {
    ios_base::iostate err = ios_base::goodbit;
    if(in.good()) {
        if(!noskip && (in.flags() & ios_base::skipws)) {
            streambuf* sb = in.rdbuf(); int c = sb->sgetc();
            while(c != -1 && isspace(c)) c = sb->snextc();
            if(c == -1) err |= ios_base::eofbit;
        }
    }
    if(in.good() && err == ios_base::goodbit) _M_ok = true; else { err |= ios_base::failbit; in.setstate(err); }
}
template<> istream& getline(istream& in, string& str, char d) {
    str.erase(); ios_base::iostate err = ios_base::goodbit; bool got = false;
    istream::sentry se(in, true);
    if(se) {
        streambuf* sb = in.rdbuf();
        for(;;) { int c = sb->sgetc(); if(c == -1) { err |= ios_base::eofbit; break; } sb->snextc(); got = true; if((char)c == d) break; str += (char)c; }
    }
    if(!got) err |= ios_base::failbit;
    if(err) in.setstate(err);
    return in;
}
template<> istream& getline(istream& in, string& str) { return getline(in, str, '\n'); }
template<> istream& operator>>(istream& in, string& str) {
    str.erase(); ios_base::iostate err = ios_base::goodbit;
    istream::sentry se(in, false);
    if(se) { streambuf* sb = in.rdbuf(); for(;;) { int c = sb->sgetc(); if(c == -1) { err |= ios_base::eofbit; break; } if(isspace(c)) break; str += (char)c; sb->snextc(); } }
    if(str.empty()) err |= ios_base::failbit;
    if(err) in.setstate(err);
    return in;
}

template class basic_string<char>;
template string operator+(const char*, const string&);
template string operator+(char, const string&);
template string operator+(const string&, const string&);
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, const string&);
template ostream& endl(ostream&);
template ostream& flush(ostream&);
template ostream& ends(ostream&);
template<> istream& ws(istream& in) { while(in.good()) { int c = in.rdbuf()->sgetc(); if(c == EOF) { in.setstate(ios_base::eofbit); break; } if(c != ' ' && (c < 9 || c > 13)) break; in.rdbuf()->sbumpc(); } return in; }
template istream& operator>>(istream&, char&);
template ostream& __ostream_insert(ostream&, const char*, streamsize);

// std::cout / cerr / clog / cin: streams without a buffer (all output is dropped)
struct NullOs : ostream { NullOs() : ostream((streambuf*)0) {} };
struct NullIs : istream { NullIs() : istream((streambuf*)0) {} };
}
alignas(16) char vs_cout[sizeof(std::ostream)] __asm__("_ZSt4cout");
alignas(16) char vs_cerr[sizeof(std::ostream)] __asm__("_ZSt4cerr");
alignas(16) char vs_clog[sizeof(std::ostream)] __asm__("_ZSt4clog");
alignas(16) char vs_cin[sizeof(std::istream)] __asm__("_ZSt3cin");
static struct StdInit { StdInit() { new(vs_cout) std::NullOs; new(vs_cerr) std::NullOs; new(vs_clog) std::NullOs; new(vs_cin) std::NullIs; } } stdInit __attribute__((init_priority(101)));
