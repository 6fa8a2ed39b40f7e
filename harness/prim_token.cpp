// C06: declarations ("class type[n] name") are read, stored, looked up and printed faithfully.
#include "vsym.h"
#include <aqsis/riutil/tokendictionary.h>
#include <aqsis/riutil/primvartoken.h>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
using namespace Aqsis;
typedef Ri::TypeSpec TS;
static const char* const cls[] = {"constant", "uniform", "varying", "vertex", "facevarying", "facevertex"};
static const TS::IClass clsv[] = {TS::Constant, TS::Uniform, TS::Varying, TS::Vertex, TS::FaceVarying, TS::FaceVertex};
static const char* const typ[] = {"float", "point", "color", "integer", "int", "string", "vector", "normal", "hpoint", "matrix", "mpoint", "pointer"};
static const TS::Type typv[] = {TS::Float, TS::Point, TS::Color, TS::Integer, TS::Integer, TS::String, TS::Vector, TS::Normal, TS::HPoint, TS::Matrix, TS::MPoint, TS::Pointer};
static char* b; static int n;
static void lit(const char* s) { while(*s) b[n++] = *s++; }
static void word(const char* s, int up) { for(int i = 0; s[i]; ++i) b[n++] = (up >> (i & 1)) & 1 ? s[i] - 32 : s[i]; }
static void space(bool must) { int k = vs_choose(must ? 1 : 0, 1 + must, "spaces"); for(int i = 0; i < k; ++i) b[n++] = i ? '\t' : ' '; }
// every class, type and array size, any letter case, any spacing, any name
static void inlineDecl() {
    b = new char[64]; n = 0;
    int c = vs_choose(-1, 5, "class"), t = vs_choose(0, 11, "type"), arr = vs_choose(0, 2, "digits"), up = vs_choose(0, 3, "case");
    bool wide = vs_choose(0, 1, "wide");
    if(wide) lit(" \t");
    if(c >= 0) { word(cls[c], up); lit(wide ? "\n " : " "); }
    word(typ[t], up);
    int want = 1;
    if(arr) { lit(wide ? " [ " : "["); want = 0; for(int i = 0; i < arr; ++i) { int d = vs_range(i ? 0 : 1, 9, "d"); b[n++] = '0' + d; want = want * 10 + d; } lit(wide ? " ]" : "]"); }
    bool name = vs_choose(0, 1, "name");
    int nb = 0, ne = 0;
    if(name) { lit(arr && !wide ? "" : wide ? "  " : " "); nb = n; lit("Zq"); ne = n; if(wide) lit(" "); }
    b[n] = 0;
    const char* s = 0; const char* e = 0; const char* err = 0;
    TS r = parseDeclaration(b, name ? &s : 0, name ? &e : 0, &err);
    vs_assert(!err, "a well-formed declaration is accepted");
    vs_assert(r.type == typv[t] && r.iclass == (c < 0 ? TS::Uniform : clsv[c]) && r.arraySize == want, "declared class, type and array size");
    if(name) vs_assert(s == b + nb && e == b + ne, "declared name");
    const char* s2 = 0; parseDeclaration(b, &s2, 0, &err);
    vs_assert(!err && (s2 != 0) == name, "the name is optional when its end is not asked for");
    if(!name) { err = 0; parseDeclaration(b, &s, &e, &err); vs_assert(err != 0, "a missing name is an error when one is required"); }
    vs_reach("end");
}
// arbitrary short texts, against the grammar; the words stand for one class, one type, names
static bool isSp(char c) { return c == ' ' || c == '\t' || c == '\n'; }
static void grammar(int len, bool words) {
    static const char* const w[] = {" ", "[", "]", "3", "Int", "vertex", "ab", "\t", "x1"};
    b = new char[64]; n = 0;
    int k = vs_choose(0, len, "n");
    if(words) for(int i = 0; i < k; ++i) lit(w[vs_choose(0, 8, "w")]);
    else for(int i = 0; i < k; ++i) { char c = (char)vs_u8("c"); vs_assume(c == ' ' || c == '\n' || c == '[' || c == ']' || (c >= '1' && c <= '3') || (c >= 'w' && c <= 'z')); b[n++] = c; }
    b[n] = 0;
    // reference: split into words
    std::vector<std::string> t; std::vector<int> at;
    for(int i = 0; i < n;) { if(isSp(b[i])) { ++i; continue; } int j = i; if(b[i] == '[' || b[i] == ']') ++j; else while(j < n && !isSp(b[j]) && b[j] != '[' && b[j] != ']') ++j; t.push_back(std::string(b + i, b + j)); at.push_back(i); i = j; }
    size_t p = 0; bool ok = true, cl = false, ty = false, ar = false; int size = 1;
    if(p < t.size() && t[p] == "vertex") { cl = true; ++p; }
    if(p < t.size() && t[p] == "Int") { ty = true; ++p; }
    if(p < t.size() && t[p] == "[") {
        ar = true; ++p; ok = p + 1 < t.size() && t[p + 1] == "]"; if(ok) { size = 0; for(size_t i = 0; i < t[p].size(); ++i) { if(t[p][i] < '0' || t[p][i] > '9') ok = false; size = size * 10 + (t[p][i] - '0'); } p += 2; }
    }
    bool named = ok && p < t.size() && t[p] != "]" && !(t[p] == "[");
    // a '[' where the name belongs is taken as a (bad) name by nothing: such texts only occur after an array size
    bool odd = ok && p < t.size() && t[p] == "["; vs_assume(!odd);
    int np = named ? (int)p : -1; if(named) ++p;
    if(p != t.size()) ok = false;
    if(!ty && (cl || ar)) ok = false;
    const char *s = 0, *e = 0, *err = 0;
    TS r = parseDeclaration(b, &s, &e, &err);
    vs_assert((err == 0) == (ok && named), "a text is accepted exactly when it is class, type, [size], name");
    if(!err) {
        vs_assert(s == b + at[np] && e == s + t[np].size(), "name of an accepted text");
        vs_assert(r.type == (ty ? TS::Integer : TS::Unknown) && r.iclass == (cl ? TS::Vertex : TS::Uniform) && r.arraySize == size, "type of an accepted text");
    }
    bool thrown = false; const char* s3 = 0; try { parseDeclaration(b, &s3, &e); } catch(XqParseError&) { thrown = true; }
    vs_assert(thrown == !(ok && named), "bad texts raise a parse error when no error slot is given");
    const char* s2 = 0; err = 0; parseDeclaration(b, &s2, 0, &err);
    vs_assert((err == 0) == ok, "type-only texts are accepted when the name is optional");
    vs_reach("end");
}
static TS sym(int& t) { t = vs_choose(0, 8, "type"); static const int m[] = {0, 1, 2, 3, 5, 6, 7, 8, 9}; return TS(clsv[vs_choose(0, 5, "class")], typv[m[t]], vs_range(1, 99, "size")); }
static void roundTrip() {
    vs_exact_ints = 1;
    int t; TS s = sym(t); std::string nm; int l = vs_choose(1, 3, "len"); for(int i = 0; i < l; ++i) { char c = (char)vs_u8("c"); vs_assume(c > 32 && c != '[' && c != ']'); nm += c; }
    CqPrimvarToken k(s, nm);
    std::ostringstream o; o << k; std::string txt = o.str(); vs_exact_ints = 0;
    CqPrimvarToken r(txt.c_str());
    vs_assert(r == k, "a printed declaration reads back the same");
    vs_assert(toTypeSpec(k) == s, "conversion to the internal type and back");
    vs_assert(tokenString(Ri::Param(s, nm.c_str(), Ri::FloatArray())).size() > 0, "printable");
    vs_reach("end");
}
static void dict() {
    TokenDict d; TS specs[3]; char names[3][3]; int kept = vs_choose(1, vs_tier() ? 3 : 2, "n");
    for(int i = 0; i < kept; ++i) { specs[i] = TS(clsv[(i + 1) % 6], typv[2 * i + 1], vs_range(1, 99, "size")); names[i][0] = 'q'; names[i][1] = 'A' + vs_choose(0, 1, "name"); names[i][2] = 0; d.declare(names[i], specs[i]); }
    char probe[3] = {'q', (char)('A' + vs_choose(0, 2, "probe")), 0};
    int last = -1; for(int i = 0; i < kept; ++i) if(!strcmp(names[i], probe)) last = i;
    bool threw = false; TS r; std::string nm;
    try { r = d.lookup(probe, &nm); } catch(XqValidation&) { threw = true; }
    vs_assert(threw == (last < 0), "looking up an undeclared name is an error, a declared one is not");
    if(last >= 0) vs_assert(r == specs[last] && nm == probe, "the latest declaration of a name counts");
    std::string inl = std::string("varying matrix[4] ") + probe; TS q = d.lookup(inl.c_str(), &nm);
    vs_assert(q == TS(TS::Varying, TS::Matrix, 4) && nm == probe, "an inline declaration overrides the dictionary");
    std::string sp = std::string(" ") + probe + " "; const char *nb, *ne;
    if(last >= 0) vs_assert(d.lookup(sp.c_str(), &nb, &ne) == specs[last] && nb == sp.c_str() + 1 && ne == nb + 2, "names are found in spite of white space");
    bool bad = false; try { d.declare("qA", vs_choose(0, 1, "bad") ? "uniform" : "float x"); } catch(XqParseError&) { bad = true; }
    vs_assert(bad, "a declaration without a type, or with a name in the type, is refused");
    vs_assert(d.lookup("P") == TS(TS::Vertex, TS::Point, 1) && d.lookup("st") == TS(TS::Varying, TS::Float, 2), "standard variables are declared");
    vs_reach("end");
}
static void counts() {
    int t; TS s = sym(t); int nc = vs_range(1, 16, "colour components");
    static const int m[] = {1, 3, 0, 1, 1, 3, 3, 4, 16}; int want = (t == 2 ? nc : m[t]) * s.arraySize;
    CqPrimvarToken k(s, "z");
    vs_assert(s.storageCount(nc) == want && k.storageCount(nc) == want, "values per element");
    TS::Type st = s.storageType(); EqVariableType et = k.storageType();
    vs_assert(st == (t == 3 ? TS::Integer : t == 4 ? TS::String : TS::Float) && et == (t == 3 ? type_integer : t == 4 ? type_string : type_float), "storage type");
    SqInterpClassCounts cc(vs_range(0, 1000, "u"), vs_range(0, 1000, "v"), vs_range(0, 1000, "x"), vs_range(0, 1000, "fv"), vs_range(0, 1000, "fx"));
    int per = s.iclass == TS::Constant ? 1 : s.iclass == TS::Uniform ? cc.uniform : s.iclass == TS::Varying ? cc.varying : s.iclass == TS::Vertex ? cc.vertex : s.iclass == TS::FaceVarying ? cc.facevarying : cc.facevertex;
    vs_assert(k.storageCount(cc, nc) == want * per, "values per primitive");
    vs_reach("end");
}
// what may stand between the brackets, and what after it
static void arraySize() {
    static const char* const big[] = {"2147483647", "2147483648", "4294967298", "9999999999999999999999", "00", "007", "0x2"}; static const char* const close[] = {"]", " ]", "", "[", "a]", "2]"};
    b = new char[64]; n = 0; lit("vertex float"); if(vs_choose(0, 1, "sp")) lit(" "); lit("["); int at = n, k = vs_choose(0, 3, "len");
    if(k == 0) lit(big[vs_choose(0, 6, "big")]); else for(int i = 0; i < k; ++i) { char c = (char)vs_u8("c"); vs_assume(c == '-' || c == '.' || c == 'x' || c == '0' || c == '1' || c == '9'); b[n++] = c; }
    int q = vs_choose(0, 5, "close"); std::string t(b + at, b + n); lit(close[q]); lit(" nm"); b[n] = 0; if(q > 3) t += close[q][0];
    bool ok = q != 2 && q != 3; long long v = 0; for(size_t i = 0; i < t.size(); ++i) { if(t[i] < '0' || t[i] > '9') ok = false; else if(v < 10000000000ll) v = v * 10 + (t[i] - '0'); } if(v < 1 || v > 2147483647ll) ok = false;
    const char *s = 0, *e = 0, *err = 0; TS r = parseDeclaration(b, &s, &e, &err);
    vs_assert((err == 0) == ok, "an array size is a positive number between brackets");
    if(ok) vs_assert(r.arraySize == (int)v && s && std::string(s, e) == "nm", "array size and name");
    vs_reach("end");
}
void harness() {
    switch(vs_case()) {
        case 0: inlineDecl(); break;
        case 1: grammar(vs_tier() ? 6 : 4, true); break;
        case 2: grammar(vs_tier() ? 6 : 4, false); break;
        case 3: roundTrip(); break;
        case 4: dict(); break;
        case 5: counts(); break;
        case 6: arraySize(); break;
    }
}
