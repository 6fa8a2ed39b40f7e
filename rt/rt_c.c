// The parts of libc the code under test calls, as bitcode (compiled -fno-builtin).
typedef unsigned long size_t; typedef int int32_t;
void* malloc(size_t); void* memcpy(void*, const void*, size_t);
// ---------------------------------------------------------------- C library
size_t strlen(const char* s) { size_t n = 0; while(s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while(n < m && s[n]) ++n; return n; }
int memcmp(const void* a, const void* b, size_t n) {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    int r = 0;
    for(size_t i = n; i-- > 0;) { int d = (int)x[i] - (int)y[i]; r = d != 0 ? d : r; }
    return r;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b) {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    while(*x && *x == *y) { ++x; ++y; }
    return (int)*x - (int)*y;
}
int strncmp(const char* a, const char* b, size_t n) {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    while(n && *x && *x == *y) { ++x; ++y; --n; }
    return n ? (int)*x - (int)*y : 0;
}
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for(size_t i = 0; i < n; ++i) if(p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
char* strchr(const char* s, int c) { for(;; ++s) { if(*s == (char)c) return (char*)s; if(!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for(;; ++s) { if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
char* strpbrk(const char* s, const char* a) { for(; *s; ++s) if(strchr(a, *s)) return (char*)s; return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while(s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while(s[n] && !strchr(a, s[n])) ++n; return n; }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for(;; ++h) { if(!strncmp(h, n, k)) return (char*)h; if(!*h) return 0; } }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while(s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for(; i < n && s[i]; ++i) d[i] = s[i]; for(; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while(*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { ++a; ++b; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while(n && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { ++a; ++b; --n; } return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0; }
static long vs_strtol(const char* s, char** e, int base, int* ovf) {
    const char* p = s; while(isspace((unsigned char)*p)) ++p;
    int neg = 0; if(*p == '-') { neg = 1; ++p; } else if(*p == '+') ++p;
    if((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if(base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; int any = 0; *ovf = 0;
    for(;; ++p) {
        int c = (unsigned char)*p, d;
        if(c >= '0' && c <= '9') d = c - '0'; else if(c >= 'a' && c <= 'z') d = c - 'a' + 10; else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if(d >= base) break;
        any = 1;
        if(v > (0x7fffffffffffffffUL - d) / base) *ovf = 1; else v = v * base + d;
    }
    if(e) *e = (char*)(any ? p : s);
    if(*ovf) return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL;
    return neg ? -(long)v : (long)v;
}
long strtol(const char* s, char** e, int b) { int o; return vs_strtol(s, e, b, &o); }
long __isoc23_strtol(const char* s, char** e, int b) { int o; return vs_strtol(s, e, b, &o); }
long long strtoll(const char* s, char** e, int b) { int o; return vs_strtol(s, e, b, &o); }
long long __isoc23_strtoll(const char* s, char** e, int b) { int o; return vs_strtol(s, e, b, &o); }
unsigned long strtoul(const char* s, char** e, int b) { int o; return (unsigned long)vs_strtol(s, e, b, &o); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { int o; return (unsigned long)vs_strtol(s, e, b, &o); }
int atoi(const char* s) { int o; return (int)vs_strtol(s, 0, 10, &o); }
long atol(const char* s) { int o; return vs_strtol(s, 0, 10, &o); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
    char* p = (char*)b; char tmp[256];
    for(size_t i = 1; i < n; ++i) for(size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; --j) { memcpy(tmp, p + j * sz, sz); memcpy(p + j * sz, p + (j - 1) * sz, sz); memcpy(p + (j - 1) * sz, tmp, sz); }
}
static unsigned short ctb[384]; static const unsigned short* ctbp;
static int32_t ctl_[384], ctu_[384]; static const int32_t *ctlp, *ctup;
const unsigned short** __ctype_b_loc() {
    if(!ctbp) {
        for(int c = 0; c < 128; ++c) {
            unsigned v = 0;
            if(isupper(c)) v |= 1 << 8; if(islower(c)) v |= 1 << 9; if(isalpha(c)) v |= 1 << 10; if(isdigit(c)) v |= 1 << 11;
            if(isxdigit(c)) v |= 1 << 12; if(isspace(c)) v |= 1 << 13; if(isprint(c)) v |= 1 << 14; if(c > 32 && c < 127) v |= 1 << 15;
            if(c == ' ' || c == '\t') v |= 1; if(iscntrl(c)) v |= 2; if(ispunct(c)) v |= 4; if(isalnum(c)) v |= 8;
            ctb[128 + c] = (unsigned short)v;
        }
        ctbp = ctb + 128;
    }
    return &ctbp;
}
const int32_t** __ctype_tolower_loc() { if(!ctlp) { for(int i = -128; i < 256; ++i) ctl_[128 + i] = tolower(i); ctlp = ctl_ + 128; } return &ctlp; }
const int32_t** __ctype_toupper_loc() { if(!ctup) { for(int i = -128; i < 256; ++i) ctu_[128 + i] = toupper(i); ctup = ctu_ + 128; } return &ctup; }
char __libc_single_threaded = 1;
