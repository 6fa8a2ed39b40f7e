// C07/C08: conditionals, inline archives, object instances; filters pass calls on unchanged.
#include "ri_record.h"
#include <aqsis/riutil/ricxxutil.h>
#include <aqsis/riutil/ribwriter.h>
using namespace Aqsis;
static std::ostream* nul; static RibWriterServices* wsv; static ReadSvc* svc;
static bool condVal[4];
static bool testCond(const std::string& c) { return condVal[c[0] - 'a']; }
struct Probe : Recorder { Probe() : Recorder(wsv) {} };
static Ri::Filter* mk(Ri::Filter* f, Ri::Renderer& next, Ri::Renderer* first) { f->setNextFilter(next); f->setRendererServices(*svc); svc->first = first ? first : f; return f; }

//---- control flow, against an interpreter of the same calls
enum Op { PRIM, IFB, ELIF, ELSE, IFE, AB, AE, RA, OB, OE, OI };
struct Ins { int op, arg; };
typedef std::vector<Ins> Prog;
static const char* const nm[] = {"a", "b", "c", "d"};
struct Interp {
    Recorder& r; Prog arch[2], obj[2]; bool haveA[2], haveO[2]; int errors;
    Interp(Recorder& r_) : r(r_), errors(0) { haveA[0] = haveA[1] = haveO[0] = haveO[1] = false; }
    struct Fr { bool outer, taken; };
    std::vector<Fr> st; bool active = true; int depth = 0; Prog* rec = 0; bool recObj = false; Prog buf;
    int recName = 0;
    void step(const Ins& x) {
        if(rec) {
            if(x.op == AB) ++depth;
            if(x.op == AE && !recObj) { if(depth == 0) { arch[recName] = buf; haveA[recName] = true; rec = 0; return; } }
            if(x.op == AE && depth) --depth;
            if(x.op == OE && recObj) { obj[recName] = buf; haveO[recName] = true; rec = 0; return; }
            buf.push_back(x); return;
        }
        switch(x.op) {
            case IFB: { Fr f; f.outer = active; f.taken = active && condVal[x.arg]; st.push_back(f); active = f.taken; return; }
            case ELIF: if(st.empty()) return; if(!st.back().outer) return; if(st.back().taken) active = false; else active = st.back().taken = condVal[x.arg]; return;
            case ELSE: if(st.empty()) return; if(!st.back().outer) return; active = !st.back().taken; return;
            case IFE: if(st.empty()) return; active = st.back().outer; st.pop_back(); return;
        }
        if(!active) return;
        switch(x.op) {
            case PRIM: r.FrameBegin(x.arg); return;
            case AB: case OB: rec = &buf; buf.clear(); recObj = x.op == OB; recName = x.arg; depth = 0; return;
            case RA: if(haveA[x.arg]) { Prog p = arch[x.arg]; run(p); } else r.ReadArchive(nm[x.arg], 0, Ri::ParamList()); return;
            case OI: if(haveO[x.arg]) { Prog p = obj[x.arg]; run(p); } else ++errors; return;
        }
    }
    void run(const Prog& p) { for(size_t i = 0; i < p.size(); ++i) step(p[i]); }
};
static void issue(Ri::Renderer& f, const Ins& x) {
    switch(x.op) {
        case PRIM: f.FrameBegin(x.arg); break; case IFB: f.IfBegin(nm[x.arg]); break; case ELIF: f.ElseIf(nm[x.arg]); break;
        case ELSE: f.Else(); break; case IFE: f.IfEnd(); break; case AB: f.ArchiveBegin(nm[x.arg], Ri::ParamList()); break;
        case AE: f.ArchiveEnd(); break; case RA: f.ReadArchive(nm[x.arg], 0, Ri::ParamList()); break;
        case OB: f.ObjectBegin(nm[x.arg]); break; case OE: f.ObjectEnd(); break; case OI: f.ObjectInstance(nm[x.arg]); break;
    }
}
// programs of up to len calls; scopes are properly nested (a stack of open scopes); ops restricts the calls
static void program(const int* ops, int nops, int len, bool unnested, bool after = false) {
    for(int i = 0; i < 4; ++i) condVal[i] = vs_bool("cond");
    Prog p; std::vector<int> open; int n = vs_choose(1, len, "n"); int prims = 100, conds = 0; bool inA = false, inO = false;
    if(after) { p.push_back({OB, 0}); p.push_back({PRIM, 50}); p.push_back({OE, 0}); }
    for(int k = 0; k < n; ++k) {
        int o = ops[vs_choose(0, nops - 1, "op")]; Ins x; x.op = o; x.arg = 0;
        int top = open.empty() ? -1 : open.back();
        if(o == PRIM) x.arg = prims++;
        else if(o == IFB || o == ELIF) x.arg = conds++ % 4;
        else if(o == AB || o == RA || o == OB || o == OI) x.arg = vs_choose(0, 1, "name");
        if(o == IFB || o == AB || o == OB) { open.push_back(o); vs_assume(!(o == OB && inO)); }
        if(!unnested) {
            if(o == ELIF || o == ELSE) vs_assume(top == IFB);
            if(o == ELIF) vs_assume(p.empty() || true);
            if(o == ELSE) open.back() = ELSE;                    // nothing but IfEnd may follow an Else
            if(o == IFE) { vs_assume(top == IFB || top == ELSE); open.pop_back(); }
            if(o == AE) { vs_assume(top == AB); open.pop_back(); }
            if(o == OE) { vs_assume(top == OB); open.pop_back(); }
        }
        inO = false; for(size_t i = 0; i < open.size(); ++i) inO |= open[i] == OB; (void)inA;
        // an archive that (re)reads one being defined would recurse for ever
        if(o == RA || o == OI) for(size_t i = 0; i < open.size(); ++i) vs_assume(open[i] != AB && open[i] != OB);
        p.push_back(x);
    }
    Probe want, got; Interp in(want); in.run(p);
    Ri::Filter* f = mk(createRenderUtilFilter(testCond), got, 0);
    for(size_t k = 0; k < p.size(); ++k) issue(*f, p[k]);
    vs_assert(want.ncalls == got.ncalls, "exactly the active calls are passed on, archives and objects expanded");
    recSame(want, got, "the active calls are passed on in order");
    vs_assert(svc->err.n == in.errors, "an unknown object is reported");
    delete f;
    vs_reach("end");
}
static void cond() { static const int o[] = {PRIM, IFB, ELIF, ELSE, IFE}; program(o, 5, vs_tier() ? 8 : 7, false); }
static void condBad() { static const int o[] = {PRIM, IFB, ELIF, ELSE, IFE}; program(o, 5, 4, true); }
static void archives() { static const int o[] = {PRIM, AB, AE, RA}; program(o, 4, vs_tier() ? 8 : 7, false); }
static void objects() { static const int o[] = {PRIM, OB, OE, OI, IFB, IFE}; program(o, 6, vs_tier() ? 7 : 6, false); }
static void afterObject() { static const int o[] = {PRIM, OB, OE, AB, AE, RA, OI}; program(o, 7, vs_tier() ? 6 : 5, false, true); }
static void mixed() { static const int o[] = {PRIM, IFB, ELSE, IFE, AB, AE, RA}; program(o, 7, vs_tier() ? 7 : 6, false); }
// archives that read other archives, whatever the order of definition and whichever is redefined
static void nestedReads() {
    Probe want, got; Interp in(want); Ri::Filter* f = mk(createRenderUtilFilter(testCond), got, 0); Prog p;
    for(int i = 0; i < 4; ++i) condVal[i] = vs_bool("cond");
    static const Ins pool[] = {{PRIM, 1}, {PRIM, 2}, {RA, 0}, {IFB, 0}, {IFE, 0}, {OI, 0}, {ELSE, 0}};
    bool redefine = vs_choose(0, 1, "redefine"), twice = vs_choose(0, 1, "twice");
    Ins ab0 = {AB, 0}, ab1 = {AB, 1}, ae = {AE, 0}, ob = {OB, 0}, oe = {OE, 0}, p7 = {PRIM, 7}, r0 = {RA, 0}, r1 = {RA, 1};
    p.push_back(ab0); p.push_back(p7); if(redefine) { p.push_back(ab0); p.push_back({PRIM, 8}); p.push_back(ae); p.push_back({PRIM, 9}); } p.push_back(ae);
    p.push_back(ob); p.push_back({PRIM, 5}); p.push_back(oe);
    p.push_back(ab1); for(int i = 0; i < 3; ++i) p.push_back(pool[vs_choose(0, 6, "in b")]); p.push_back(ae);
    p.push_back(r1); p.push_back(r0); if(twice) { p.push_back(r1); p.push_back(r0); }
    in.run(p); for(size_t k = 0; k < p.size(); ++k) issue(*f, p[k]);
    vs_assert(want.ncalls == got.ncalls, "archives reading archives expand to the calls in them");
    recSame(want, got, "archives reading archives expand in order"); delete f; vs_reach("end");
}

//---- C08: every call through each filter
static void allCalls(int how, int part, int nparts) {
    int per = (RI_NCALLS + nparts - 1) / nparts, id = part * per + vs_choose(0, per - 1, "call");
    vs_assume(id < RI_NCALLS);
    if(how <= 1) vs_assume(id != RI_ArchiveRecord && id != RI_ArchiveBegin && id != RI_ArchiveEnd && id != RI_ObjectBegin && id != RI_ObjectEnd && id != RI_ObjectInstance && id != RI_ReadArchive && id != RI_IfBegin && id != RI_ElseIf && id != RI_Else && id != RI_IfEnd);
    Probe direct, got, branch; RiArgs A(wsv); A.alen = vs_choose(0, 2, "array length"); A.slen = vs_choose(0, 2, "string length") * 8;
    Ri::Filter* f = 0; Ri::IntArray fr; Ri::Param pr[1]; static RtInt frames[1] = {3};
    pr[0] = Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform, Ri::TypeSpec::Integer, 1), "frames", Ri::IntArray(frames, 1));
    switch(how) {
        case 0: case 1: case 2: f = createRenderUtilFilter(); break;
        case 3: f = createTeeFilter(branch); break;
        case 4: f = createFilter("framedrop", Ri::ParamList(pr, 1)); vs_assume(id != RI_FrameBegin); break;
        case 5: f = createFilter("ignorearchives", Ri::ParamList()); vs_assume(id != RI_ReadArchive); break;
    }
    mk(f, got, 0);
    if(how == 2) vs_assume(id != RI_ArchiveBegin && id != RI_ArchiveEnd && id != RI_ObjectBegin && id != RI_ObjectEnd && id != RI_ObjectInstance);
    if(how == 0) f->ArchiveBegin("arc", Ri::ParamList());
    if(how == 1) f->ObjectBegin("arc");
    { Tee t(direct, *f); riCall(id, t, A); }
    A.freeAll();                                       // the caller's storage is gone now
    if(how == 0) { vs_assert(got.ncalls == 0, "nothing of an archive's definition is passed on"); f->ArchiveEnd(); f->ReadArchive("arc", 0, Ri::ParamList()); }
    if(how == 1) { vs_assert(got.ncalls == 0, "nothing of an object's definition is passed on"); f->ObjectEnd(); f->ObjectInstance("arc"); }
    vs_assert(got.ncalls == 1, "each call is passed on exactly once");
    recSame(direct, got, "calls are passed on with the arguments they were made with");
    if(how == 3) { vs_assert(branch.ncalls == 1, "the branch of a tee gets each call once"); recSame(direct, branch, "the branch of a tee gets the same arguments"); }
    if(how <= 1) { if(how == 0) f->ReadArchive("arc", 0, Ri::ParamList()); else f->ObjectInstance("arc"); vs_assert(got.ncalls == 2, "each use replays the call"); vs_assert(got.w.size() == 2 * direct.w.size(), "a second use replays the same"); bool ok = true; for(size_t i = 0; i < direct.w.size(); ++i) ok &= got.w[direct.w.size() + i] == direct.w[i]; vs_assert(ok, "a second use replays the same arguments"); }
    delete f; vs_reach("end");
}
// frame selection: the frames asked for are rendered, the others dropped, everything outside frames kept
static void frames() {
    static RtInt fr[3]; int nf = vs_choose(0, 2, "n"); for(int i = 0; i < nf; ++i) fr[i] = vs_i32("want");
    Ri::Param pr[1]; pr[0] = Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform, Ri::TypeSpec::Integer, 1), "frames", Ri::IntArray(fr, nf));
    Probe want, got; Ri::Filter* f = mk(createFilter("framedrop", Ri::ParamList(pr, 1)), got, 0);
    for(int k = 0; k < 2; ++k) {
        int no = vs_i32("frame"); bool sel = false; for(int i = 0; i < nf; ++i) sel |= fr[i] == no;
        f->Sides(1); want.Sides(1);
        f->FrameBegin(no); f->Sides(2); f->Attribute("x", Ri::ParamList()); f->FrameEnd();
        if(sel) { want.FrameBegin(no); want.Sides(2); want.Attribute("x", Ri::ParamList()); want.FrameEnd(); }
        f->Identity(); want.Identity();
    }
    vs_assert(want.ncalls == got.ncalls, "only the selected frames are passed on"); recSame(want, got, "selected frames are passed on whole"); vs_reach("end");
}
static void frameText() {
    // "m", "m-n", "m,n", "m-n,o" with one digit each, and any other separator is refused
    char t[8]; int n = 0, shape = vs_choose(0, 3, "shape"); int a = vs_choose(0, 9, "a"), b = vs_choose(0, 9, "b"), c = vs_choose(0, 9, "c"); char sep = (char)vs_u8("sep");
    vs_assume(sep != 0 && sep != ' ' && !(sep >= 9 && sep <= 13) && !(sep >= '0' && sep <= '9'));
    t[n++] = '0' + a; if(shape == 1) { t[n++] = '-'; t[n++] = '0' + b; } if(shape >= 2) { t[n++] = ','; t[n++] = '0' + b; } if(shape == 3) { t[n++] = sep; t[n++] = '0' + c; } t[n] = 0;
    const char* s[1] = {t}; Ri::Param pr[1]; pr[0] = Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform, Ri::TypeSpec::String, 1), "frames", Ri::StringArray(s, 1));
    Ri::Filter* f = 0; bool threw = false; try { f = createFilter("framedrop", Ri::ParamList(pr, 1)); } catch(XqValidation&) { threw = true; }
    bool good = shape < 3 || sep == ',' || sep == '-' || sep == '+';
    vs_assert(threw == !good, "frame lists are numbers and ranges separated by commas");
    if(threw) { vs_reach("refused"); return; }
    Probe got; mk(f, got, 0);
    int lo = a < b ? a : b, hi = a < b ? b : a, lo2 = b < c ? b : c, hi2 = b < c ? c : b;
    for(int k = 0; k <= 10; ++k) {
        bool sel = shape == 0 ? k == a : shape == 1 ? k >= lo && k <= hi : shape == 2 ? k == a || k == b : k == a || k == b || (sep == '-' ? k >= lo2 && k <= hi2 : k == c);
        int before = got.ncalls; f->FrameBegin(k); f->FrameEnd();
        vs_assert(got.ncalls == before + (sel ? 2 : 0), "frame lists select the frames they name");
    }
    vs_reach("end");
}
void harness() {
    nul = new std::ostream((std::streambuf*)0); wsv = createRibWriter(*nul, RibWriterOptions()); svc = new ReadSvc(wsv);
    switch(vs_case()) {
        case 0: cond(); break; case 1: condBad(); break; case 2: archives(); break; case 3: objects(); break; case 4: mixed(); break; case 5: nestedReads(); break; case 6: afterObject(); break;
        case 10: case 11: case 12: allCalls(0, vs_case() - 10, 3); break;
        case 13: allCalls(1, 0, 1); break; case 14: allCalls(2, 0, 1); break; case 15: allCalls(3, 0, 1); break; case 16: allCalls(4, 0, 1); break; case 17: allCalls(5, 0, 1); break;
        case 18: frames(); break; case 19: frameText(); break;
    }
}
