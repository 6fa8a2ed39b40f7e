// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string& s) {
    std::string r;
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static std::string whereAmI(State& s) {
    std::string out;
    int n = 0;
    for(size_t i = s.st.size(); i-- > 0 && n < 12;) {
        Frame& f = s.st[i];
        if(f.pc >= f.f->insts.size()) continue;
        const Instruction* I = f.f->insts[f.pc].I;
        std::string fn = demangle(f.f->F->getName().str());
        if(fn.size() > 120) fn.resize(120);
        if(n++) out += " < ";
        out += fn;
        if(const DebugLoc& d = I->getDebugLoc()) {
            if(auto* sc = dyn_cast_or_null<DIScope>(d.getScope())) out += "@" + sc->getFilename().str() + ":" + std::to_string(d.getLine());
        }
    }
    return out;
}
static std::string hexOf(u64 v, unsigned bytes) {
    std::string r; char b[4];
    for(unsigned i = 0; i < bytes; i++) { snprintf(b, 4, "%02x", (unsigned)((v >> (8 * i)) & 255)); r += b; }
    return r;
}
static double ratToDouble(Z3_ast a) {
    std::string s = Z3_get_numeral_decimal_string(Z, a, 30);
    return strtod(s.c_str(), nullptr);
}
static std::vector<std::tuple<std::string, unsigned, std::string>> inputsUnder(State& s, const std::shared_ptr<ModelP>& m) {
    std::vector<std::tuple<std::string, unsigned, std::string>> r;
    for(int ii : s.inputs) {
        InputVar& iv = g_inputs[ii];
        Z3_ast out = nullptr; u64 v = 0;
        if(m && Z3_model_eval(Z, m->m, iv.e.a, true, &out)) {
            E o(out);
            if(iv.real) {
                double d = 0;
                if(Z3_is_algebraic_number(Z, o.a)) { E lo(Z3_get_algebraic_number_lower(Z, o.a, 20)); d = ratToDouble(lo.a); }
                else d = ratToDouble(o.a);
                v = dToBits(d, iv.bits == 64);
            } else Z3_get_numeral_uint64(Z, o.a, &v);
        }
        r.emplace_back(iv.name, iv.bits / 8, hexOf(v, iv.bits / 8));
    }
    return r;
}
static void violation(State& s, const std::string& kind, const std::string& msg, const std::shared_ptr<ModelP>& m) {
    Viol v; v.kind = kind; v.msg = msg; v.where = whereAmI(s);
    v.inputs = inputsUnder(s, m);
    v.notes = s.notes;
    viols.push_back(v);
    if(optVerbose) fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
    if(viols.size() >= optMaxViol) { finish(1); }
}
static void noteIncomplete(const std::string& m) { if(incomplete.empty()) incomplete = m; if(optVerbose) fprintf(stderr, "INCOMPLETE %s\n", m.c_str()); }

// ---------------------------------------------------------------- memory
static ObjP findObj(State& s, u64 a) {
    auto it = s.mem.upper_bound(a);
    if(it != s.mem.begin()) { --it; ObjP o = it->second; if(a >= o->base && a <= o->base + o->size) return o; }
    auto jt = roGlobals.upper_bound(a);
    if(jt != roGlobals.begin()) { --jt; ObjP o = jt->second; if(a >= o->base && a <= o->base + o->size) return o; }
    return nullptr;
}
static MemObj* writable(State& s, const ObjP& o) {
    auto it = s.mem.find(o->base);
    if(it == s.mem.end()) return nullptr;
    if(it->second.use_count() > 2) it->second = std::make_shared<MemObj>(*o); // map + caller's handle
    return it->second.get();
}
static u64 allocObj(State& s, u64 size, const std::string& name, bool heap) {
    u64& top = heap ? s.heapTop : s.stackTop;
    u64 base = (top + 15) & ~15ull;
    top = base + size + 32;
    auto o = std::make_shared<MemObj>();
    o->base = base; o->size = size; o->name = name; o->heap = heap;
    o->conc.assign(size, 0xA5);
    s.mem[base] = o;
    return base;
}
static V byteAt(const MemObj& o, u64 off) {
    auto it = o.symb.find((uint32_t)off);
    if(it == o.symb.end()) return cv(o.conc[off]);
    E full = toBV(sv(it->second.e), it->second.n * 8);
    return sv(mkExtract(it->second.idx * 8 + 7, it->second.idx * 8, full));
}
static V readObj(const MemObj& o, u64 off, unsigned n) {
    if(o.symb.empty()) {
        if(n <= 8) { u64 c = 0; memcpy(&c, &o.conc[off], n); return cv(c); }
    }
    bool any = n > 8;
    for(unsigned i = 0; i < n && !any; ++i) if(o.symb.count(off + i)) any = true;
    if(!any) { u64 c = 0; memcpy(&c, &o.conc[off], n); return cv(c); }
    auto it = o.symb.find(off);
    if(it != o.symb.end() && it->second.idx == 0 && it->second.n == n) {
        bool ok = true;
        for(unsigned i = 1; i < n && ok; ++i) {
            auto jt = o.symb.find(off + i);
            ok = jt != o.symb.end() && jt->second.e.a == it->second.e.a && jt->second.idx == i;
        }
        if(ok) return sv(it->second.e);
    }
    bool hasReal = false;
    if(optReal) for(unsigned i = 0; i < n && !hasReal; ++i) { auto jt = o.symb.find(off + i); if(jt != o.symb.end() && jt->second.e.kind() == Z3_REAL_SORT) hasReal = true; }
    if(hasReal) {
        V v; v.raw = std::make_shared<std::vector<RawB>>();
        for(unsigned i = 0; i < n; ++i) {
            auto jt = o.symb.find(off + i); RawB b; b.c = o.conc[off + i]; b.idx = b.n = 0;
            if(jt != o.symb.end()) { b.e = jt->second.e; b.idx = jt->second.idx; b.n = jt->second.n; }
            v.raw->push_back(b);
        }
        return v;
    }
    E r;
    for(unsigned i = n; i-- > 0;) {
        E b = toBV(byteAt(o, off + i), 8);
        r = r ? E(Z3_mk_concat(Z, r.a, b.a)) : b;
    }
    return sv(simp(r));
}
static void writeObj(MemObj& o, u64 off, unsigned n, const V& v) {
    if(v.raw) {
        for(unsigned i = 0; i < n; ++i) {
            const RawB& b = (*v.raw)[i];
            if(b.e) o.symb[off + i] = MemObj::SB{b.e, b.idx, b.n};
            else { o.symb.erase(off + i); o.conc[off + i] = b.c; }
        }
        return;
    }
    if(!v.e) {
        for(unsigned i = 0; i < n; ++i) { if(!o.symb.empty()) o.symb.erase(off + i); o.conc[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0; }
        return;
    }
    E e = v.e;
    if(e.kind() == Z3_BOOL_SORT) e = toBV(v, n * 8);
    for(unsigned i = 0; i < n; ++i) o.symb[off + i] = MemObj::SB{e, (uint8_t)i, (uint8_t)n};
}

static std::map<std::string, long> forkLoc;
static bool optForks = getenv("VSYM_FORKS") != nullptr;
static void countFork(State& s) { S.forks++; if(optForks) forkLoc[whereAmI(s).substr(0, 160)]++; }
static void forkInto(State& s, const E& cond, const std::shared_ptr<ModelP>& m) {
    auto n = std::make_shared<State>(s);
    n->depth++;
    assumeWith(*n, cond, m);
    work.push_back(n);
    countFork(s);
}
static u64 evalU64(const std::shared_ptr<ModelP>& m, const E& e) {
    Z3_ast out; u64 v = 0;
    if(!m) fatal("no model");
    if(!Z3_model_eval(Z, m->m, e.a, true, &out)) fatal("model eval");
    E o(out);
    if(!Z3_get_numeral_uint64(Z, o.a, &v)) { E o2 = simp(o); if(!Z3_get_numeral_uint64(Z, o2.a, &v)) fatal("model eval: not a numeral"); }
    return v;
}
// Returns false if the state must stop (unknown).
static bool concretize(State& s, const V& v, unsigned bits, u64& out) {
    if(!v.e) { out = v.c; return true; }
    E e = simp(toBV(v, bits));
    if(isNum(e, out)) return true;
    auto it = s.conc.find(e.id());
    if(it != s.conc.end()) { out = it->second; return true; }
    u64 val = evalU64(s.model, e);
    if(++s.enumN[e.id()] > optMaxEnum) { noteIncomplete("more than --max-enum values of one term at " + whereAmI(s)); return false; }
    E eq = mkEq(e, bvc(val, bits));
    QRes q = query(s, mkNot(eq));
    if(q.r == UNKNOWN) { noteIncomplete("solver unknown while concretising"); return false; }
    s.keep.push_back(e);
    if(q.r == SAT) forkInto(s, mkNot(eq), q.m);
    assumeWith(s, eq, s.model);
    s.conc[e.id()] = val; s.enumN.erase(e.id());
    out = val;
    return true;
}

struct Loc { ObjP o; bool symOff = false; u64 off = 0; E offE; };
// Resolve a pointer for an n byte access.  false: state ends.
static bool resolve(State& s, const V& p, u64 n, Loc& L, const char* what) {
    if(!p.e) {
        ObjP o = findObj(s, p.c);
        if(!o || p.c + n > o->base + o->size || (o->freed)) {
            std::string m = std::string(what) + " of " + std::to_string(n) + " bytes at ";
            char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)p.c); m += b;
            if(!o) m += p.c < 4096 ? " (null pointer)" : " (no object)";
            else if(o->freed) m += " (object '" + o->name + "' already freed)";
            else m += " (offset " + std::to_string((int64_t)(p.c - o->base)) + " of object '" + o->name + "' size " + std::to_string(o->size) + ")";
            violation(s, "memory", m, s.model);
            s.dead = true; return false;
        }
        if(o->undef) { noteIncomplete(std::string(what) + " of global '" + o->name + "', which no encoded source defines"); s.dead = true; return false; }
        L.o = o; L.off = p.c - o->base; return true;
    }
    E pe = simp(toBV(p, 64));
    u64 cst;
    if(isNum(pe, cst)) return resolve(s, cv(cst), n, L, what);
    u64 a = evalU64(s.model, pe);
    ObjP o = findObj(s, a);
    if(!o || o->freed || a + n > o->base + o->size) {
        // a feasible address outside every object
        std::string m = std::string(what) + " of " + std::to_string(n) + " bytes through symbolic pointer can leave its object";
        if(o) m += " '" + o->name + "' (offset " + std::to_string((int64_t)(a - o->base)) + ", size " + std::to_string(o->size) + ")" + (o->freed ? " freed" : "");
        violation(s, "memory", m, s.model);
        s.dead = true; return false;
    }
    E lo(Z3_mk_bvuge(Z, pe.a, bvc(o->base, 64).a)), hi(Z3_mk_bvule(Z, pe.a, bvc(o->base + o->size - n, 64).a));
    E in = mkAnd(lo, hi);
    QRes q = query(s, mkNot(in));
    if(q.r == UNKNOWN) { noteIncomplete("solver unknown in pointer resolution"); s.dead = true; return false; }
    if(q.r == SAT) forkInto(s, mkNot(in), q.m);
    assumeWith(s, in, s.model);
    L.o = o; L.symOff = true;
    L.offE = simp(E(Z3_mk_bvsub(Z, pe.a, bvc(o->base, 64).a)));
    return true;
}
static const unsigned MAXTAB = 4096;
static bool slots(State& s, Loc& L, unsigned n, std::vector<u64>& out) {
    // feasible offsets: first try a small enumeration, then alignment
    u64 size = L.o->size;
    unsigned step = 1;
    if(n > 1) {
        for(unsigned al = n; al > 1; al /= 2) {
            if(al & (al - 1)) { al = 1; break; }
            E mis = mkNot(mkEq(E(Z3_mk_bvand(Z, L.offE.a, bvc(al - 1, 64).a)), bvc(0, 64)));
            if(query(s, mis).r == UNSAT) { step = al; break; }
        }
    }
    for(u64 o = 0; o + n <= size; o += step) out.push_back(o);
    if(out.size() > MAXTAB) return false;
    return true;
}
static bool loadN(State& s, const V& p, unsigned n, V& out) {
    Loc L;
    if(!resolve(s, p, n, L, "read")) return false;
    if(L.symOff && optReal) { u64 off; if(!concretize(s, sv(L.offE), 64, off)) { s.dead = true; return false; } L.symOff = false; L.off = off; }
    if(!L.symOff) { out = readObj(*L.o, L.off, n); return true; }
    std::vector<u64> sl;
    bool big = !slots(s, L, n, sl);
    if(!big && n == 8) {
        // a table of pointers: one path per entry instead of a symbolic pointer
        u64 p0 = 0; unsigned np = 0;
        for(u64 o : sl) { V v = readObj(*L.o, o, n); if(!v.e && !v.raw && v.c >= 0x400000 && v.c != p0 && (faddr.count(v.c) || findObj(s, v.c))) { p0 = v.c; if(++np > 1) { big = true; break; } } }
    }
    if(big) {
        u64 off; if(!concretize(s, sv(L.offE), 64, off)) { s.dead = true; return false; }
        out = readObj(*L.o, off, n); return true;
    }
    // group equal concrete values to keep the chain short
    E r; bool first = true;
    std::map<u64, std::vector<u64>> byVal;
    std::vector<std::pair<u64, V>> symv;
    bool anyReal = false;
    for(u64 o : sl) { V v = readObj(*L.o, o, n); if(v.e) { symv.emplace_back(o, v); if(v.e.kind() == Z3_REAL_SORT) anyReal = true; } else byVal[v.c].push_back(o); }
    auto lift = [&](const V& v) { return anyReal ? toReal(v, n == 8) : toBV(v, n * 8); };
    u64 dflt = 0; size_t best = 0;
    for(auto& kv : byVal) if(kv.second.size() > best) { best = kv.second.size(); dflt = kv.first; }
    if(best) { r = lift(cv(dflt)); first = false; }
    for(auto& kv : byVal) {
        if(kv.first == dflt && best) continue;
        for(u64 o : kv.second) { E v = lift(cv(kv.first)); r = first ? v : mkIte(mkEq(L.offE, bvc(o, 64)), v, r); first = false; }
    }
    for(auto& pr : symv) { E v = lift(pr.second); r = first ? v : mkIte(mkEq(L.offE, bvc(pr.first, 64)), v, r); first = false; }
    out = sv(r);
    return true;
}
static bool storeN(State& s, const V& p, unsigned n, const V& v) {
    Loc L;
    if(!resolve(s, p, n, L, "write")) return false;
    if(L.o->ro) { violation(s, "memory", "write to constant object '" + L.o->name + "'", s.model); s.dead = true; return false; }
    std::vector<u64> sl;
    if(L.symOff && (optReal || !slots(s, L, n, sl) || sl.size() > 64)) {
        u64 off; if(!concretize(s, sv(L.offE), 64, off)) { s.dead = true; return false; }
        L.symOff = false; L.off = off;
    }
    MemObj* w = writable(s, L.o);
    if(!w) fatal("write to unknown object");
    if(!L.symOff) { writeObj(*w, L.off, n, v); return true; }
    bool real = v.e && v.e.kind() == Z3_REAL_SORT;
    for(u64 o : sl) {
        V old = readObj(*w, o, n);
        bool rl = real || (old.e && old.e.kind() == Z3_REAL_SORT);
        E ne = rl ? toReal(v, n == 8) : toBV(v, n * 8), oe = rl ? toReal(old, n == 8) : toBV(old, n * 8);
        writeObj(*w, o, n, sv(mkIte(mkEq(L.offE, bvc(o, 64)), ne, oe)));
    }
    return true;
}
static bool copyMem(State& s, const V& d, const V& src, u64 n) {
    if(n == 0) return true;
    Loc LS, LD;
    if(!resolve(s, src, n, LS, "read (copy)")) return false;
    if(LS.symOff) { u64 off; if(!concretize(s, sv(LS.offE), 64, off)) { s.dead = true; return false; } LS.off = off; }
    if(!resolve(s, d, n, LD, "write (copy)")) return false;
    if(LD.symOff) { u64 off; if(!concretize(s, sv(LD.offE), 64, off)) { s.dead = true; return false; } LD.off = off; }
    std::vector<uint8_t> tmp(LS.o->conc.begin() + LS.off, LS.o->conc.begin() + LS.off + n);
    std::vector<std::pair<u64, MemObj::SB>> sb;
    if(!LS.o->symb.empty()) for(u64 i = 0; i < n; ++i) { auto it = LS.o->symb.find(LS.off + i); if(it != LS.o->symb.end()) sb.emplace_back(i, it->second); }
    LS.o.reset();
    if(LD.o->ro) { violation(s, "memory", "write to constant object '" + LD.o->name + "'", s.model); s.dead = true; return false; }
    MemObj* w = writable(s, LD.o);
    memcpy(&w->conc[LD.off], tmp.data(), n);
    if(!w->symb.empty()) for(u64 i = 0; i < n; ++i) w->symb.erase(LD.off + i);
    for(auto& p : sb) w->symb[LD.off + p.first] = p.second;
    return true;
}

// ---------------------------------------------------------------- types
static unsigned bitsOf(Type* T) {
    if(T->isPointerTy()) return 64;
    if(T->isIntegerTy()) return T->getIntegerBitWidth();
    if(T->isFloatTy()) return 32;
    if(T->isDoubleTy()) return 64;
    if(T->isX86_FP80Ty()) return 80;
    fatal("bitsOf: unsupported type");
}
static bool isAggTy(Type* T) { return T->isStructTy() || T->isArrayTy() || T->isVectorTy(); }
static unsigned aggN(Type* T) {
    if(auto* st = dyn_cast<StructType>(T)) return st->getNumElements();
    if(auto* at = dyn_cast<ArrayType>(T)) return at->getNumElements();
    return cast<FixedVectorType>(T)->getNumElements();
}
static Type* aggElt(Type* T, unsigned i) {
    if(auto* st = dyn_cast<StructType>(T)) return st->getElementType(i);
    if(auto* at = dyn_cast<ArrayType>(T)) return at->getElementType();
    return cast<FixedVectorType>(T)->getElementType();
}
static u64 aggOff(Type* T, unsigned i) {
    if(auto* st = dyn_cast<StructType>(T)) return DL->getStructLayout(st)->getElementOffset(i);
    Type* et = aggElt(T, 0);
    if(T->isVectorTy()) { unsigned b = bitsOf(et); if(b % 8) fatal("sub-byte vector in memory"); return i * (b / 8); }
    return i * DL->getTypeAllocSize(et).getFixedValue();
}
static V zeroOf(Type* T) {
    if(isAggTy(T)) {
        V v; v.agg = std::make_shared<std::vector<V>>();
        for(unsigned i = 0, n = aggN(T); i < n; ++i) v.agg->push_back(zeroOf(aggElt(T, i)));
        return v;
    }
    if(bitsOf(T) > 64 && !T->isX86_FP80Ty()) return sv(bvc(0, bitsOf(T)));
    return cv(0);
}
static V ptrAdd(const V& p, int64_t k) {
    if(!p.e) return cv(p.c + k);
    if(!k) return p;
    return sv(E(Z3_mk_bvadd(Z, p.e.a, bvc((u64)k, 64).a)));
}
static bool loadTy(State& s, const V& p, Type* T, V& out) {
    if(isAggTy(T)) {
        out = V(); out.agg = std::make_shared<std::vector<V>>();
        for(unsigned i = 0, n = aggN(T); i < n; ++i) {
            V x; if(!loadTy(s, ptrAdd(p, aggOff(T, i)), aggElt(T, i), x)) return false;
            out.agg->push_back(x);
        }
        return true;
    }
    unsigned b = bitsOf(T);
    if(b == 80) {
        u64 a; if(!concretize(s, p, 64, a)) return false;
        V lo; if(!loadN(s, cv(a), 8, lo)) return false; V hi; if(!loadN(s, cv(a + 8), 2, hi)) return false;
        if(lo.e || hi.e) fatal("symbolic x86_fp80");
        // keep as double bits
        unsigned char raw[16] = {0}; memcpy(raw, &lo.c, 8); memcpy(raw + 8, &hi.c, 2);
        long double ld; memcpy(&ld, raw, sizeof ld); out = cv(dToBits((double)ld, true)); return true;
    }
    unsigned n = (b + 7) / 8;
    if(!loadN(s, p, n, out)) return false;
    if(b % 8) {
        if(out.e) { E e = toBV(out, n * 8); if(b == 1) out = sv(toBool(sv(e))); else out = sv(mkExtract(b - 1, 0, e)); }
        else out.c = maskTo(out.c, b);
    }
    return true;
}
static bool storeTy(State& s, const V& p, Type* T, const V& v) {
    if(isAggTy(T)) {
        for(unsigned i = 0, n = aggN(T); i < n; ++i)
            if(!storeTy(s, ptrAdd(p, aggOff(T, i)), aggElt(T, i), (*v.agg)[i])) return false;
        return true;
    }
    unsigned b = bitsOf(T);
    if(b == 80) {
        long double ld = bitsToD(v.c, true); unsigned char raw[16] = {0}; memcpy(raw, &ld, 10);
        u64 lo, hi = 0; memcpy(&lo, raw, 8); memcpy(&hi, raw + 8, 2);
        return storeN(s, p, 8, cv(lo)) && storeN(s, ptrAdd(p, 8), 2, cv(hi));
    }
    unsigned n = (b + 7) / 8;
    V w = v;
    if(b % 8) {
        if(v.e) { E e = toBV(v, b); if(v.e.kind() != Z3_BOOL_SORT || b != 1) w = sv(E(Z3_mk_zero_ext(Z, n * 8 - b, e.a))); else w = sv(toBV(v, 8)); }
        else w.c = maskTo(v.c, b);
    }
    return storeN(s, p, n, w);
}
// flatten to / from one bit string (bitcasts between vectors and scalars)
static V toBits(const V& v, Type* T, unsigned& bits) {
    if(!isAggTy(T)) { bits = bitsOf(T); return v; }
    bool sym = false; unsigned tot = 0;
    std::vector<std::pair<V, unsigned>> ps;
    for(unsigned i = 0, n = aggN(T); i < n; ++i) { unsigned b; V x = toBits((*v.agg)[i], aggElt(T, i), b); sym |= x.sym(); tot += b; ps.emplace_back(x, b); }
    bits = tot;
    bool real = false;
    for(auto& p : ps) real |= p.first.raw || (p.first.e && p.first.e.kind() == Z3_REAL_SORT);
    if(real) {
        V r; r.raw = std::make_shared<std::vector<RawB>>();
        for(auto& p : ps) {
            unsigned nb = p.second / 8;
            for(unsigned i = 0; i < nb; ++i) {
                if(p.first.raw) { r.raw->push_back((*p.first.raw)[i]); continue; }
                RawB b; b.c = (uint8_t)(p.first.c >> (8 * i)); b.idx = i; b.n = nb; b.e = p.first.e; r.raw->push_back(b);
            }
        }
        return r;
    }
    if(!sym && tot <= 64) { u64 r = 0; unsigned sh = 0; for(auto& p : ps) { r |= maskTo(p.first.c, p.second) << sh; sh += p.second; } return cv(r); }
    E r;
    for(size_t i = ps.size(); i-- > 0;) { E b = toBV(ps[i].first, ps[i].second); r = r ? E(Z3_mk_concat(Z, r.a, b.a)) : b; }
    return sv(r);
}
static V rawSlice(const V& v, unsigned lo, unsigned n) {
    auto& r = *v.raw;
    if(lo + n > r.size()) fatal("raw slice out of range");
    bool any = false, whole = true;
    for(unsigned i = 0; i < n; ++i) {
        if(r[lo + i].e) any = true;
        if(!r[lo + i].e || r[lo + i].e.a != r[lo].e.a || r[lo + i].idx != i || r[lo + i].n != n) whole = false;
    }
    if(!any) { u64 c = 0; for(unsigned i = 0; i < n && i < 8; ++i) c |= (u64)r[lo + i].c << (8 * i); return cv(c); }
    if(whole) return sv(r[lo].e);
    V o; o.raw = std::make_shared<std::vector<RawB>>(r.begin() + lo, r.begin() + lo + n);
    return o;
}
static V fromBits(const V& v, unsigned vbits, unsigned lo, Type* T) {
    if(isAggTy(T)) {
        V r; r.agg = std::make_shared<std::vector<V>>();
        unsigned pos = lo;
        for(unsigned i = 0, n = aggN(T); i < n; ++i) { Type* et = aggElt(T, i); r.agg->push_back(fromBits(v, vbits, pos, et)); pos += bitsOf(et); }
        return r;
    }
    unsigned b = bitsOf(T);
    if(v.raw) { if(lo % 8 || b % 8) fatal("raw bit slice"); return rawSlice(v, lo / 8, b / 8); }
    if(!v.e) return cv(maskTo(lo < 64 ? v.c >> lo : 0, b));
    if(b == vbits) return v;
    E x = simp(mkExtract(lo + b - 1, lo, toBV(v, vbits)));
    u64 c; if(b <= 64 && isNum(x, c)) return cv(c);
    if(b == 1) return sv(toBool(sv(x)));
    return sv(x);
}

// ---------------------------------------------------------------- constants
static V evalConst(const Constant* C);
static u64 constU64(const Constant* C) { V v = evalConst(C); if(v.e) fatal("symbolic constant"); return v.c; }
static V evalConst(const Constant* C) {
    Type* T = C->getType();
    if(auto* ci = dyn_cast<ConstantInt>(C)) {
        if(ci->getBitWidth() <= 64) return cv(ci->getZExtValue());
        SmallString<64> str; ci->getValue().toStringUnsigned(str);
        return sv(E(Z3_mk_numeral(Z, str.c_str(), Z3_mk_bv_sort(Z, ci->getBitWidth()))));
    }
    if(auto* cf = dyn_cast<ConstantFP>(C)) {
        APFloat f = cf->getValueAPF();
        if(T->isX86_FP80Ty()) { bool l; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); }
        return cv(f.bitcastToAPInt().getZExtValue());
    }
    if(isa<ConstantPointerNull>(C)) return cv(0);
    if(isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(T);
    if(auto* ca = dyn_cast<ConstantAggregate>(C)) {
        V v; v.agg = std::make_shared<std::vector<V>>();
        for(unsigned i = 0; i < ca->getNumOperands(); ++i) v.agg->push_back(evalConst(ca->getOperand(i)));
        return v;
    }
    if(auto* cd = dyn_cast<ConstantDataSequential>(C)) {
        V v; v.agg = std::make_shared<std::vector<V>>();
        for(unsigned i = 0; i < cd->getNumElements(); ++i) v.agg->push_back(evalConst(cd->getElementAsConstant(i)));
        return v;
    }
    if(auto* ga = dyn_cast<GlobalAlias>(C)) return evalConst(ga->getAliasee());
    if(auto* gv = dyn_cast<GlobalValue>(C)) {
        auto it = gaddr.find(gv);
        if(it == gaddr.end()) fatal("address of unknown global " + gv->getName().str());
        return cv(it->second);
    }
    if(auto* ce = dyn_cast<ConstantExpr>(C)) {
        switch(ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep");
                return cv(constU64(ce->getOperand(0)) + off.getSExtValue());
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                return cv(constU64(ce->getOperand(0)));
            case Instruction::Trunc: return cv(maskTo(constU64(ce->getOperand(0)), bitsOf(T)));
            case Instruction::Sub: return cv(maskTo(constU64(ce->getOperand(0)) - constU64(ce->getOperand(1)), bitsOf(T)));
            case Instruction::Add: return cv(maskTo(constU64(ce->getOperand(0)) + constU64(ce->getOperand(1)), bitsOf(T)));
            case Instruction::ICmp: {
                auto* cmp = cast<ConstantExpr>(ce); u64 a = constU64(ce->getOperand(0)), b = constU64(ce->getOperand(1));
                if(cmp->getPredicate() == CmpInst::ICMP_EQ) return cv(a == b);
                if(cmp->getPredicate() == CmpInst::ICMP_NE) return cv(a != b);
                fatal("const icmp");
            }
            default: fatal(std::string("constant expression ") + ce->getOpcodeName());
        }
    }
    std::string str; raw_string_ostream os(str); C->print(os);
    fatal("unsupported constant " + os.str());
}
static void initMem(State& s, u64 addr, const Constant* C) {
    Type* T = C->getType();
    if(isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) ) return; // already zeroed
    if(isAggTy(T)) {
        if(auto* cd = dyn_cast<ConstantDataSequential>(C)) {
            for(unsigned i = 0; i < cd->getNumElements(); ++i) storeTy(s, cv(addr + aggOff(T, i)), aggElt(T, i), evalConst(cd->getElementAsConstant(i)));
        } else for(unsigned i = 0; i < C->getNumOperands(); ++i) initMem(s, addr + aggOff(T, i), cast<Constant>(C->getOperand(i)));
        return;
    }
    storeTy(s, cv(addr), T, evalConst(C));
}

// ---------------------------------------------------------------- prepare
static KFunc* prepare(Function* F) {
    auto& p = kfuncs[F];
    if(p && p->prepared) return p.get();
    if(!p) p = std::make_unique<KFunc>();
    KFunc& k = *p; k.F = F; k.prepared = true;
    for(auto& A : F->args()) { k.slotOf[&A] = k.nslots; k.argSlots.push_back(k.nslots++); }
    for(auto& BB : *F) for(auto& I : BB) if(!I.getType()->isVoidTy()) k.slotOf[&I] = k.nslots++;
    for(auto& BB : *F) {
        k.bbStart[&BB] = k.insts.size();
        for(auto& I : BB) {
            KInst ki; ki.I = &I;
            auto it = k.slotOf.find(&I);
            if(it != k.slotOf.end()) ki.dest = it->second;
            for(auto& U : I.operands()) {
                Value* v = U.get();
                Op o; o.slot = -1;
                auto jt = k.slotOf.find(v);
                if(jt != k.slotOf.end()) o.slot = jt->second;
                else if(auto* c = dyn_cast<Constant>(v)) {
                    if(isa<CallBase>(&I) && isa<Function>(c) && !gaddr.count(cast<GlobalValue>(c))) o.k = cv(0);
                    else o.k = evalConst(c);
                }
                ki.ops.push_back(std::move(o));
            }
            k.insts.push_back(std::move(ki));
        }
    }
    if(F->hasName()) usedFuncs.insert(F->getName().str());
    return &k;
}
static inline const V& opv(Frame& f, const Op& o) { return o.slot >= 0 ? f.regs[o.slot] : o.k; }

// ---------------------------------------------------------------- scalar ops
static V boolV(const E& e) {
    Z3_lbool b = Z3_get_bool_value(Z, e.a);
    if(b == Z3_L_TRUE) return cv(1);
    if(b == Z3_L_FALSE) return cv(0);
    return sv(e);
}
static V bvV(const E& e) { u64 c; if(isNum(e, c)) return cv(c); return sv(e); }
static V binInt(unsigned op, const V& a, const V& b, unsigned bits) {
    if(!a.e && !b.e) {
        u64 x = maskTo(a.c, bits), y = maskTo(b.c, bits);
        switch(op) {
            case Instruction::Add: return cv(maskTo(x + y, bits));
            case Instruction::Sub: return cv(maskTo(x - y, bits));
            case Instruction::Mul: return cv(maskTo(x * y, bits));
            case Instruction::UDiv: return cv(x / y);
            case Instruction::URem: return cv(x % y);
            case Instruction::SDiv: { int64_t p = sext(x, bits), q = sext(y, bits); if(q == -1) return cv(maskTo(0 - (u64)p, bits)); return cv(maskTo((u64)(p / q), bits)); }
            case Instruction::SRem: { int64_t p = sext(x, bits), q = sext(y, bits); if(q == -1) return cv(0); return cv(maskTo((u64)(p % q), bits)); }
            case Instruction::And: return cv(x & y);
            case Instruction::Or: return cv(x | y);
            case Instruction::Xor: return cv(x ^ y);
            case Instruction::Shl: return cv(y >= bits ? 0 : maskTo(x << y, bits));
            case Instruction::LShr: return cv(y >= bits ? 0 : x >> y);
            case Instruction::AShr: return cv(maskTo((u64)(sext(x, bits) >> (y >= bits ? bits - 1 : y)), bits));
        }
        fatal("binop");
    }
    if(bits == 1) {
        E x = toBool(a), y = toBool(b);
        switch(op) {
            case Instruction::And: return boolV(!a.e ? (a.c & 1 ? y : x) : !b.e ? (b.c & 1 ? x : y) : mkAnd(x, y));
            case Instruction::Or: return boolV(!a.e ? (a.c & 1 ? x : y) : !b.e ? (b.c & 1 ? y : x) : mkOr(x, y));
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return boolV(!b.e ? (b.c & 1 ? mkNot(x) : x) : !a.e ? (a.c & 1 ? mkNot(y) : y) : E(Z3_mk_xor(Z, x.a, y.a)));
        }
    }
    // cheap identities
    if(!b.e && bits <= 64) {
        u64 y = maskTo(b.c, bits);
        if(y == 0) switch(op) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return a;
            case Instruction::Mul: case Instruction::And: return cv(0);
        }
        if(op == Instruction::And && y == maskTo(~0ull, bits)) return a;
        if(y == 1 && (op == Instruction::Mul || op == Instruction::UDiv || op == Instruction::SDiv)) return a;
        // masks with low bits of a zero-extended value
        if(op == Instruction::And && a.e.kind() == Z3_BV_SORT && declKind(a.e) == Z3_OP_ZERO_EXT) {
            unsigned w = bvSize(arg(a.e, 0));
            if((y & maskTo(~0ull, w)) == maskTo(~0ull, w)) return a;
        }
    }
    if(!a.e && bits <= 64) {
        u64 x = maskTo(a.c, bits);
        if(x == 0) switch(op) { case Instruction::Add: case Instruction::Or: case Instruction::Xor: return b; case Instruction::Mul: case Instruction::And: case Instruction::Shl: case Instruction::LShr: return cv(0); }
    }
    E x = toBV(a, bits), y = toBV(b, bits);
    Z3_ast r = nullptr;
    switch(op) {
        case Instruction::Add: r = Z3_mk_bvadd(Z, x.a, y.a); break;
        case Instruction::Sub: r = Z3_mk_bvsub(Z, x.a, y.a); break;
        case Instruction::Mul: r = Z3_mk_bvmul(Z, x.a, y.a); break;
        case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x.a, y.a); break;
        case Instruction::URem: r = Z3_mk_bvurem(Z, x.a, y.a); break;
        case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x.a, y.a); break;
        case Instruction::SRem: r = Z3_mk_bvsrem(Z, x.a, y.a); break;
        case Instruction::And: r = Z3_mk_bvand(Z, x.a, y.a); break;
        case Instruction::Or: r = Z3_mk_bvor(Z, x.a, y.a); break;
        case Instruction::Xor: r = Z3_mk_bvxor(Z, x.a, y.a); break;
        case Instruction::Shl: r = Z3_mk_bvshl(Z, x.a, y.a); break;
        case Instruction::LShr: r = Z3_mk_bvlshr(Z, x.a, y.a); break;
        case Instruction::AShr: r = Z3_mk_bvashr(Z, x.a, y.a); break;
        default: fatal("binop");
    }
    return bvV(E(r));
}
static V icmp(CmpInst::Predicate p, const V& a, const V& b, unsigned bits) {
    if(!a.e && !b.e) {
        u64 x = maskTo(a.c, bits), y = maskTo(b.c, bits); int64_t sx = sext(x, bits), sy = sext(y, bits);
        switch(p) {
            case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
            case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
            case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y);
            case CmpInst::ICMP_SGT: return cv(sx > sy); case CmpInst::ICMP_SGE: return cv(sx >= sy);
            case CmpInst::ICMP_SLT: return cv(sx < sy); case CmpInst::ICMP_SLE: return cv(sx <= sy);
            default: fatal("icmp");
        }
    }
    if(a.e && b.e && a.e.a == b.e.a) switch(p) {
        case CmpInst::ICMP_EQ: case CmpInst::ICMP_UGE: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: case CmpInst::ICMP_SLE: return cv(1);
        default: return cv(0);
    }
    if(bits == 1) {
        E x = toBool(a), y = toBool(b);
        E eq = !b.e ? (b.c & 1 ? x : mkNot(x)) : !a.e ? (a.c & 1 ? y : mkNot(y)) : mkEq(x, y);
        if(p == CmpInst::ICMP_EQ) return boolV(eq);
        if(p == CmpInst::ICMP_NE) return boolV(mkNot(eq));
        E xv = toBV(sv(x), 1), yv = toBV(sv(y), 1);
        return icmp(p, sv(E(Z3_mk_zero_ext(Z, (CmpInst::isSigned(p) ? 0 : 1), xv.a))), sv(E(Z3_mk_zero_ext(Z, (CmpInst::isSigned(p) ? 0 : 1), yv.a))), CmpInst::isSigned(p) ? 1 + 0 : 2);
    }
    // boolean ite compared with a constant
    if(!b.e && a.e.kind() == Z3_BOOL_SORT) { /* zext-ed bool kept as Bool never reaches here */ }
    if(!b.e && bits <= 64 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && declKind(a.e) == Z3_OP_ITE) {
        u64 t, f;
        if(isNum(arg(a.e, 1), t) && isNum(arg(a.e, 2), f)) {
            bool et = t == maskTo(b.c, bits), ef = f == maskTo(b.c, bits);
            if(p == CmpInst::ICMP_NE) { et = !et; ef = !ef; }
            if(et == ef) return cv(et);
            return boolV(et ? arg(a.e, 0) : mkNot(arg(a.e, 0)));
        }
    }
    E x = toBV(a, bits), y = toBV(b, bits);
    switch(p) {
        case CmpInst::ICMP_EQ: return boolV(mkEq(x, y));
        case CmpInst::ICMP_NE: return boolV(mkNot(mkEq(x, y)));
        case CmpInst::ICMP_UGT: return boolV(E(Z3_mk_bvugt(Z, x.a, y.a)));
        case CmpInst::ICMP_UGE: return boolV(E(Z3_mk_bvuge(Z, x.a, y.a)));
        case CmpInst::ICMP_ULT: return boolV(E(Z3_mk_bvult(Z, x.a, y.a)));
        case CmpInst::ICMP_ULE: return boolV(E(Z3_mk_bvule(Z, x.a, y.a)));
        case CmpInst::ICMP_SGT: return boolV(E(Z3_mk_bvsgt(Z, x.a, y.a)));
        case CmpInst::ICMP_SGE: return boolV(E(Z3_mk_bvsge(Z, x.a, y.a)));
        case CmpInst::ICMP_SLT: return boolV(E(Z3_mk_bvslt(Z, x.a, y.a)));
        case CmpInst::ICMP_SLE: return boolV(E(Z3_mk_bvsle(Z, x.a, y.a)));
        default: fatal("icmp");
    }
}
static bool isRealMix(const V& a, const V& b) { return (a.e && a.e.kind() == Z3_REAL_SORT) || (b.e && b.e.kind() == Z3_REAL_SORT); }
static E RNE() { return E(Z3_mk_fpa_rne(Z)); }
static bool isInfNan(const V& v, bool dbl, double& d) { if(v.e) return false; d = bitsToD(v.c, dbl); return std::isnan(d) || std::isinf(d); }
static bool isConstZero(const V& v, bool dbl) { return !v.e && bitsToD(v.c, dbl) == 0; }
static bool divByZeroReal = false;
// real mode: a constant that is infinite or not a number against a (finite) real term
static bool oddConst(const V& v, bool dbl) { return optReal && !v.e && !std::isfinite(bitsToD(v.c, dbl)); }
static bool realTerm(const V& v) { return v.e && v.e.kind() == Z3_REAL_SORT; }
static V binFP(unsigned op, const V& a, const V& b, bool dbl) {
    if(op == Instruction::FAdd || op == Instruction::FSub) {
        if(oddConst(a, dbl) && realTerm(b)) return a;
        if(oddConst(b, dbl) && realTerm(a)) return op == Instruction::FAdd ? b : cv(b.c ^ (dbl ? 1ull << 63 : 1ull << 31));
    }
    if(!a.e && !b.e) {
        if(dbl) {
            double x = bitsToD(a.c, true), y = bitsToD(b.c, true), r = 0;
            switch(op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = std::fmod(x, y); break; }
            return cv(dToBits(r, true));
        }
        float x = (float)bitsToD(a.c, false), y = (float)bitsToD(b.c, false), r = 0;
        switch(op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = std::fmod(x, y); break; }
        uint32_t i; memcpy(&i, &r, 4); return cv(i);
    }
    if(isRealMix(a, b)) {
        if(isConstZero(a, dbl)) { if(op == Instruction::FAdd) return b; if(op == Instruction::FMul || op == Instruction::FDiv) return cv(0); }
        if(isConstZero(b, dbl)) { if(op == Instruction::FAdd || op == Instruction::FSub) return a; if(op == Instruction::FMul) return cv(0); if(op == Instruction::FDiv) fatal("real-mode division of symbolic by literal zero"); }
        if(!b.e && bitsToD(b.c, dbl) == 1 && (op == Instruction::FMul || op == Instruction::FDiv)) return a;
        if(!a.e && bitsToD(a.c, dbl) == 1 && op == Instruction::FMul) return b;
        E x = toReal(a, dbl), y = toReal(b, dbl);
        Z3_ast v[2] = {x.a, y.a};
        switch(op) {
            case Instruction::FAdd: return sv(E(Z3_mk_add(Z, 2, v)));
            case Instruction::FSub: return sv(E(Z3_mk_sub(Z, 2, v)));
            case Instruction::FMul: return sv(E(Z3_mk_mul(Z, 2, v)));
            case Instruction::FDiv: return sv(E(Z3_mk_div(Z, x.a, y.a)));
            default: fatal("real-mode frem");
        }
    }
    E x = toFP(a, dbl), y = toFP(b, dbl), rm = RNE();
    switch(op) {
        case Instruction::FAdd: return sv(E(Z3_mk_fpa_add(Z, rm.a, x.a, y.a)));
        case Instruction::FSub: return sv(E(Z3_mk_fpa_sub(Z, rm.a, x.a, y.a)));
        case Instruction::FMul: return sv(E(Z3_mk_fpa_mul(Z, rm.a, x.a, y.a)));
        case Instruction::FDiv: return sv(E(Z3_mk_fpa_div(Z, rm.a, x.a, y.a)));
        default: fatal("symbolic frem");
    }
}
static V fcmp(CmpInst::Predicate p, const V& a, const V& b, bool dbl) {
    if(p == CmpInst::FCMP_FALSE) return cv(0);
    if(p == CmpInst::FCMP_TRUE) return cv(1);
    if(oddConst(a, dbl) && realTerm(b)) return fcmp(p, a, cv(0), dbl);
    if(oddConst(b, dbl) && realTerm(a)) return fcmp(p, cv(0), b, dbl);
    if(!a.e && !b.e) {
        double x = bitsToD(a.c, dbl), y = bitsToD(b.c, dbl);
        bool un = std::isnan(x) || std::isnan(y);
        switch(p) {
            case CmpInst::FCMP_OEQ: return cv(x == y); case CmpInst::FCMP_OGT: return cv(x > y); case CmpInst::FCMP_OGE: return cv(x >= y);
            case CmpInst::FCMP_OLT: return cv(x < y); case CmpInst::FCMP_OLE: return cv(x <= y); case CmpInst::FCMP_ONE: return cv(!un && x != y);
            case CmpInst::FCMP_ORD: return cv(!un); case CmpInst::FCMP_UNO: return cv(un);
            case CmpInst::FCMP_UEQ: return cv(un || x == y); case CmpInst::FCMP_UGT: return cv(un || x > y); case CmpInst::FCMP_UGE: return cv(un || x >= y);
            case CmpInst::FCMP_ULT: return cv(un || x < y); case CmpInst::FCMP_ULE: return cv(un || x <= y); case CmpInst::FCMP_UNE: return cv(un || x != y);
            default: fatal("fcmp");
        }
    }
    if(isRealMix(a, b)) {
        double d;
        if(isInfNan(a, dbl, d) || isInfNan(b, dbl, d)) {
            bool left = isInfNan(a, dbl, d);
            if(std::isnan(d)) return cv(p == CmpInst::FCMP_UNO || (p >= CmpInst::FCMP_UEQ && p <= CmpInst::FCMP_UNE));
            // compare 0 with inf in the same position
            return left ? fcmp(p, a, cv(0), dbl) : fcmp(p, cv(0), b, dbl);
        }
        E x = toReal(a, dbl), y = toReal(b, dbl);
        switch(p) {
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return boolV(mkEq(x, y));
            case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return boolV(mkNot(mkEq(x, y)));
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return boolV(E(Z3_mk_gt(Z, x.a, y.a)));
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return boolV(E(Z3_mk_ge(Z, x.a, y.a)));
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return boolV(E(Z3_mk_lt(Z, x.a, y.a)));
            case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return boolV(E(Z3_mk_le(Z, x.a, y.a)));
            case CmpInst::FCMP_ORD: return cv(1); case CmpInst::FCMP_UNO: return cv(0);
            default: fatal("fcmp");
        }
    }
    E x = toFP(a, dbl), y = toFP(b, dbl);
    E nan = mkOr(E(Z3_mk_fpa_is_nan(Z, x.a)), E(Z3_mk_fpa_is_nan(Z, y.a)));
    switch(p) {
        case CmpInst::FCMP_OEQ: return boolV(E(Z3_mk_fpa_eq(Z, x.a, y.a)));
        case CmpInst::FCMP_OGT: return boolV(E(Z3_mk_fpa_gt(Z, x.a, y.a)));
        case CmpInst::FCMP_OGE: return boolV(E(Z3_mk_fpa_geq(Z, x.a, y.a)));
        case CmpInst::FCMP_OLT: return boolV(E(Z3_mk_fpa_lt(Z, x.a, y.a)));
        case CmpInst::FCMP_OLE: return boolV(E(Z3_mk_fpa_leq(Z, x.a, y.a)));
        case CmpInst::FCMP_ONE: return boolV(mkAnd(mkNot(nan), mkNot(E(Z3_mk_fpa_eq(Z, x.a, y.a)))));
        case CmpInst::FCMP_ORD: return boolV(mkNot(nan));
        case CmpInst::FCMP_UNO: return boolV(nan);
        case CmpInst::FCMP_UEQ: return boolV(mkOr(nan, E(Z3_mk_fpa_eq(Z, x.a, y.a))));
        case CmpInst::FCMP_UGT: return boolV(mkNot(E(Z3_mk_fpa_leq(Z, x.a, y.a))));
        case CmpInst::FCMP_UGE: return boolV(mkNot(E(Z3_mk_fpa_lt(Z, x.a, y.a))));
        case CmpInst::FCMP_ULT: return boolV(mkNot(E(Z3_mk_fpa_geq(Z, x.a, y.a))));
        case CmpInst::FCMP_ULE: return boolV(mkNot(E(Z3_mk_fpa_gt(Z, x.a, y.a))));
        case CmpInst::FCMP_UNE: return boolV(mkNot(E(Z3_mk_fpa_eq(Z, x.a, y.a))));
        default: fatal("fcmp");
    }
}
// same-sort lifting for ite
static V iteV(const E& c, const V& a, const V& b, Type* T) {
    if(isAggTy(T)) {
        V r; r.agg = std::make_shared<std::vector<V>>();
        for(unsigned i = 0, n = aggN(T); i < n; ++i) r.agg->push_back(iteV(c, (*a.agg)[i], (*b.agg)[i], aggElt(T, i)));
        return r;
    }
    if(!a.e && !b.e && a.c == b.c) return a;
    if(a.e && b.e && a.e.a == b.e.a) return a;
    unsigned bits = bitsOf(T);
    if(bits == 1) {
        if(!a.e && !b.e) return boolV(a.c & 1 ? c : mkNot(c));
        return boolV(mkIte(c, toBool(a), toBool(b)));
    }
    if(isRealMix(a, b)) return sv(mkIte(c, toReal(a, bits == 64), toReal(b, bits == 64)));
    bool fp = T->isFloatingPointTy();
    if(fp && ((a.e && a.e.kind() == Z3_FLOATING_POINT_SORT) || (b.e && b.e.kind() == Z3_FLOATING_POINT_SORT)))
        return sv(mkIte(c, toFP(a, bits == 64), toFP(b, bits == 64)));
    if(fp && optReal && !a.e && !b.e) {
        double d; if(!isInfNan(a, bits == 64, d) && !isInfNan(b, bits == 64, d)) return sv(mkIte(c, toReal(a, bits == 64), toReal(b, bits == 64)));
    }
    return sv(mkIte(c, toBV(a, bits), toBV(b, bits)));
}
#include "exec2.inc"
