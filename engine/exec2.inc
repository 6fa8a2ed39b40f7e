// ---------------------------------------------------------------- control
static void jumpTo(State& s, const BasicBlock* bb) {
    Frame& f = s.st.back();
    const BasicBlock* from = f.f->insts[f.pc].I->getParent();
    unsigned pc = f.f->bbStart[bb];
    std::vector<std::pair<int, V>> upd;
    while(auto* ph = dyn_cast<PHINode>(f.f->insts[pc].I)) {
        int ix = ph->getBasicBlockIndex(from);
        if(ix < 0) fatal("phi without incoming edge");
        upd.emplace_back(f.f->insts[pc].dest, opv(f, f.f->insts[pc].ops[ix]));
        ++pc;
    }
    for(auto& u : upd) f.regs[u.first] = u.second;
    f.prev = from;
    f.pc = pc;
}
static void popFrame(State& s) {
    for(u64 a : s.st.back().allocas) s.mem.erase(a);
    s.st.pop_back();
}
static bool readConc(State& s, u64 a, unsigned n, u64& out) {
    ObjP o = findObj(s, a);
    if(!o || a + n > o->base + o->size) return false;
    V v = readObj(*o, a - o->base, n);
    if(v.e) return false;
    out = v.c; return true;
}
static std::string readCStr(State& s, u64 a) {
    std::string r; u64 c;
    while(readConc(s, a++, 1, c) && c && r.size() < 4096) r += (char)c;
    return r;
}
// ---------------------------------------------------------------- exceptions
static u64 vtClass, vtSi, vtVmi, vtPtr;
static std::map<u64, int> typeIds;
static int typeIdOf(u64 ti) { auto it = typeIds.find(ti); if(it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }
static bool tiName(State& s, u64 ti, std::string& n) { u64 p; if(!readConc(s, ti + 8, 8, p)) return false; n = readCStr(s, p); return !n.empty(); }
static bool tiSame(State& s, u64 a, u64 b) {
    if(a == b) return true;
    std::string x, y; return tiName(s, a, x) && tiName(s, b, y) && x == y;
}
// is 'want' a (public) base of 'have'?  adj accumulates the offset
static bool tiBase(State& s, u64 have, u64 want, u64& off) {
    if(tiSame(s, have, want)) return true;
    u64 vt; if(!readConc(s, have, 8, vt)) return false;
    if(vt == vtSi + 16) { u64 b; return readConc(s, have + 16, 8, b) && tiBase(s, b, want, off); }
    if(vt == vtVmi + 16) {
        u64 n; if(!readConc(s, have + 20, 4, n)) return false;
        for(u64 i = 0; i < n; ++i) {
            u64 b, of; if(!readConc(s, have + 24 + 16 * i, 8, b) || !readConc(s, have + 32 + 16 * i, 8, of)) return false;
            if(of & 1) { u64 o2 = off; if(tiBase(s, b, want, o2)) { noteIncomplete("virtual base in catch"); return true; } continue; }
            u64 o2 = off + ((int64_t)of >> 8);
            if(tiBase(s, b, want, o2)) { off = o2; return true; }
        }
    }
    return false;
}
static int matchPad(State& s, Frame& f, LandingPadInst* lp, const Exc& ex, u64& adj, bool& cleanup) {
    cleanup = lp->isCleanup();
    for(unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if(lp->isFilter(i)) { noteIncomplete("exception filter clause"); continue; }
        u64 want = constU64(cast<Constant>(lp->getClause(i)));
        u64 off = 0;
        if(want == 0) { adj = ex.obj; return typeIdOf(0); }
        if(tiBase(s, ex.tinfo, want, off)) { adj = ex.obj + off; return typeIdOf(want); }
    }
    return 0;
}
static LandingPadInst* padOf(Frame& f) {
    if(auto* iv = dyn_cast<InvokeInst>(f.f->insts[f.pc].I)) return iv->getUnwindDest()->getLandingPadInst();
    return nullptr;
}
// Unwind with exception object ex; the top frame is the one whose current call threw.
static void unwindExc(State& s, u64 exo) {
    Exc ex = s.excs[exo];
    bool found = false;
    for(size_t i = s.st.size(); i-- > 0 && !found;) {
        if(auto* lp = padOf(s.st[i])) { u64 adj; bool cl; if(matchPad(s, s.st[i], lp, ex, adj, cl)) found = true; }
    }
    if(!found) {
        std::string n; tiName(s, ex.tinfo, n);
        violation(s, "exception", "uncaught exception of type " + demangle("_ZTS" + n), s.model);
        s.dead = true; return;
    }
    while(true) {
        Frame& f = s.st.back();
        if(auto* lp = padOf(f)) {
            u64 adj = exo; bool cl = false;
            int sel = matchPad(s, f, lp, ex, adj, cl);
            if(sel || cl) {
                if(sel) s.excs[exo].adj = adj;
                jumpTo(s, lp->getParent());
                Frame& g = s.st.back();
                while(!isa<LandingPadInst>(g.f->insts[g.pc].I)) ++g.pc;
                V r; r.agg = std::make_shared<std::vector<V>>();
                r.agg->push_back(cv(exo)); r.agg->push_back(cv((u64)sel));
                g.regs[g.f->insts[g.pc].dest] = r;
                ++g.pc;
                return;
            }
        }
        popFrame(s);
        if(s.st.empty()) fatal("unwound past entry");
    }
}

// ---------------------------------------------------------------- casts
static V fpToInt(State& s, const V& v, bool dbl, unsigned bits, bool sgn, bool& ok) {
    ok = true;
    unsigned cb = (bits < 32 || (bits == 32 && sgn)) ? 32 : 64;     // what the x86 backend emits
    if(!v.e) {
        double d = bitsToD(v.c, dbl);
        if(cb == 32) { if(!(d > -2147483649.0 && d < 2147483648.0)) return cv(maskTo(0x80000000u, bits)); return cv(maskTo((u64)(int64_t)d, bits)); }
        if(!sgn && bits == 64 && d >= 9223372036854775808.0 && d < 18446744073709551616.0) return cv((u64)d);
        if(!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return cv(maskTo(0x8000000000000000ull, bits));
        return cv(maskTo((u64)(int64_t)d, bits));
    }
    if(v.e.kind() == Z3_REAL_SORT) {
        E e = simp(v.e);
        Z3_ast out; if(!Z3_model_eval(Z, s.model->m, e.a, true, &out)) fatal("model eval");
        E o(out);
        double d = Z3_is_algebraic_number(Z, o.a) ? ratToDouble(E(Z3_get_algebraic_number_lower(Z, o.a, 20)).a) : ratToDouble(o.a);
        double t = std::trunc(d);
        if(std::fabs(t) > 1e15) { noteIncomplete("real-mode float to int of a huge value"); ok = false; s.dead = true; return cv(0); }
        E T1 = realOf(t), lo, hi;
        auto inRange = [&](double t) {
            E c;
            if(t > 0) c = mkAnd(E(Z3_mk_ge(Z, e.a, realOf(t).a)), E(Z3_mk_lt(Z, e.a, realOf(t + 1).a)));
            else if(t < 0) c = mkAnd(E(Z3_mk_le(Z, e.a, realOf(t).a)), E(Z3_mk_gt(Z, e.a, realOf(t - 1).a)));
            else c = mkAnd(E(Z3_mk_lt(Z, e.a, realOf(1).a)), E(Z3_mk_gt(Z, e.a, realOf(-1).a)));
            return c;
        };
        E c = inRange(t);
        if(!evalTrue(s.model, c)) { for(double k : {t - 1, t + 1}) { E c2 = inRange(k); if(evalTrue(s.model, c2)) { c = c2; t = k; break; } } }
        if(!evalTrue(s.model, c)) fatal("real-mode float to int: no range fits the model");
        if(++s.enumN[e.id()] > optMaxEnum) { noteIncomplete("more than --max-enum integer parts at " + whereAmI(s)); s.dead = true; ok = false; return cv(0); }
        s.keep.push_back(e);
        QRes q = query(s, mkNot(c));
        if(q.r == UNKNOWN) { noteIncomplete("solver unknown in float to int"); s.dead = true; ok = false; return cv(0); }
        if(q.r == SAT) forkInto(s, mkNot(c), q.m);
        assumeWith(s, c, s.model);
        s.enumN.erase(e.id());
        return cv(maskTo((u64)(int64_t)t, bits));
    }
    E x = toFP(v, dbl), rtz(Z3_mk_fpa_rtz(Z));
    auto lit = [&](double d) { return toFP(cv(dToBits(d, dbl)), dbl); };
    E conv(Z3_mk_fpa_to_sbv(Z, rtz.a, x.a, cb));
    E in;
    if(cb == 32) in = mkAnd(dbl ? E(Z3_mk_fpa_gt(Z, x.a, lit(-2147483649.0).a)) : E(Z3_mk_fpa_geq(Z, x.a, lit(-2147483648.0).a)), E(Z3_mk_fpa_lt(Z, x.a, lit(2147483648.0).a)));
    else in = mkAnd(E(Z3_mk_fpa_geq(Z, x.a, lit(-9223372036854775808.0).a)), E(Z3_mk_fpa_lt(Z, x.a, lit(9223372036854775808.0).a)));
    E r = mkIte(in, conv, bvc(cb == 32 ? 0x80000000u : 0x8000000000000000ull, cb));
    if(!sgn && bits == 64) {
        E big = mkAnd(E(Z3_mk_fpa_geq(Z, x.a, lit(9223372036854775808.0).a)), E(Z3_mk_fpa_lt(Z, x.a, lit(18446744073709551616.0).a)));
        r = mkIte(big, E(Z3_mk_fpa_to_ubv(Z, rtz.a, x.a, 64)), r);
    }
    return sv(mkExtract(bits - 1, 0, r));
}
static bool isDblTy(Type* T) { return !T->isFloatTy(); }
static bool castOp(State& s, unsigned op, const V& v, Type* ST, Type* DT, V& out) {
    if(op != Instruction::BitCast && isAggTy(DT)) {
        out = V(); out.agg = std::make_shared<std::vector<V>>();
        for(unsigned i = 0, n = aggN(DT); i < n; ++i) { V x; if(!castOp(s, op, (*v.agg)[i], aggElt(ST, i), aggElt(DT, i), x)) return false; out.agg->push_back(x); }
        return true;
    }
    switch(op) {
        case Instruction::BitCast: {
            if(!isAggTy(ST) && !isAggTy(DT)) {
                if(DT->isIntegerTy() && v.e && v.e.kind() == Z3_FLOATING_POINT_SORT) out = sv(toBV(v, bitsOf(DT)));
                else out = v;
                return true;
            }
            unsigned b; V x = toBits(v, ST, b); out = fromBits(x, b, 0, DT); return true;
        }
        case Instruction::Trunc: {
            unsigned b = bitsOf(DT);
            if(v.raw) { out = rawSlice(v, 0, b / 8); return true; }
            if(!v.e) { out = cv(maskTo(v.c, b)); return true; }
            if(b == 1) { out = boolV(simp(toBool(v))); return true; }
            out = bvV(mkExtract(b - 1, 0, toBV(v, bitsOf(ST)))); return true;
        }
        case Instruction::ZExt: case Instruction::SExt: {
            unsigned sb = bitsOf(ST), db = bitsOf(DT);
            if(!v.e && !v.raw) {
                u64 c = op == Instruction::ZExt ? maskTo(v.c, sb) : (u64)sext(v.c, sb);
                if(db <= 64) out = cv(maskTo(c, db));
                else if(op == Instruction::ZExt) out = sv(E(Z3_mk_zero_ext(Z, db - sb, bvc(v.c, sb).a)));
                else out = sv(E(Z3_mk_sign_ext(Z, db - sb, bvc(v.c, sb).a)));
                return true;
            }
            if(sb == 1) { E c = toBool(v); out = sv(mkIte(c, op == Instruction::ZExt ? bvc(1, db) : E(Z3_mk_bvnot(Z, bvc(0, db).a)), bvc(0, db))); return true; }
            E x = toBV(v, sb);
            if(op == Instruction::ZExt) out = sv(E(Z3_mk_zero_ext(Z, db - sb, x.a)));
            else out = sv(E(Z3_mk_sign_ext(Z, db - sb, x.a)));
            return true;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            unsigned sb = bitsOf(ST), db = bitsOf(DT);
            if(sb == db) { out = v; return true; }
            return castOp(s, sb < db ? Instruction::ZExt : Instruction::Trunc, v, IntegerType::get(*CTX, sb), IntegerType::get(*CTX, db), out);
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            bool sd = isDblTy(ST), dd = isDblTy(DT);
            if(sd == dd) { out = v; return true; }
            if(!v.e) { out = cv(dToBits(bitsToD(v.c, sd), dd)); return true; }
            if(v.e.kind() == Z3_REAL_SORT) { out = v; return true; }
            out = sv(E(Z3_mk_fpa_to_fp_float(Z, RNE().a, toFP(v, sd).a, fpSort(dd)))); return true;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            unsigned b = bitsOf(ST); bool dd = isDblTy(DT);
            V w = v;
            if(w.e && optReal) { u64 c; if(!concretize(s, w, b, c)) { s.dead = true; return false; } w = cv(c); }
            if(!w.e) {
                if(op == Instruction::SIToFP) { int64_t k = sext(w.c, b); out = dd ? cv(dToBits((double)k, true)) : [&] { float f = (float)k; uint32_t i; memcpy(&i, &f, 4); return cv(i); }(); }
                else { u64 k = maskTo(w.c, b); out = dd ? cv(dToBits((double)k, true)) : [&] { float f = (float)k; uint32_t i; memcpy(&i, &f, 4); return cv(i); }(); }
                return true;
            }
            E x = toBV(w, b);
            out = sv(op == Instruction::SIToFP ? E(Z3_mk_fpa_to_fp_signed(Z, RNE().a, x.a, fpSort(dd))) : E(Z3_mk_fpa_to_fp_unsigned(Z, RNE().a, x.a, fpSort(dd))));
            return true;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            bool ok; out = fpToInt(s, v, isDblTy(ST), bitsOf(DT), op == Instruction::FPToSI, ok);
            return ok;
        }
        default: fatal("cast");
    }
}
// ---------------------------------------------------------------- math
static V fneg(const V& v, bool dbl) {
    if(!v.e) return cv(v.c ^ (dbl ? 0x8000000000000000ull : 0x80000000ull));
    if(v.e.kind() == Z3_REAL_SORT) return sv(E(Z3_mk_unary_minus(Z, v.e.a)));
    return sv(E(Z3_mk_fpa_neg(Z, toFP(v, dbl).a)));
}
static V fabsV(const V& v, bool dbl) {
    if(!v.e) return cv(v.c & (dbl ? 0x7fffffffffffffffull : 0x7fffffffull));
    if(v.e.kind() == Z3_REAL_SORT) return sv(mkIte(E(Z3_mk_ge(Z, v.e.a, realOf(0).a)), v.e, E(Z3_mk_unary_minus(Z, v.e.a))));
    return sv(E(Z3_mk_fpa_abs(Z, toFP(v, dbl).a)));
}
static double applyD(const std::string& n, double a, double b, double c) {
    if(n == "sin") return std::sin(a); if(n == "cos") return std::cos(a); if(n == "tan") return std::tan(a);
    if(n == "asin") return std::asin(a); if(n == "acos") return std::acos(a); if(n == "atan") return std::atan(a);
    if(n == "atan2") return std::atan2(a, b); if(n == "exp") return std::exp(a); if(n == "log") return std::log(a);
    if(n == "exp2") return std::exp2(a); if(n == "log2") return std::log2(a); if(n == "log10") return std::log10(a);
    if(n == "pow") return std::pow(a, b); if(n == "fmod") return std::fmod(a, b); if(n == "sqrt") return std::sqrt(a);
    if(n == "floor") return std::floor(a); if(n == "ceil") return std::ceil(a); if(n == "trunc") return std::trunc(a);
    if(n == "rint" || n == "nearbyint" || n == "roundeven") return std::nearbyint(a); if(n == "round") return std::round(a);
    if(n == "fma") return std::fma(a, b, c); if(n == "cbrt") return std::cbrt(a); if(n == "hypot") return std::hypot(a, b);
    if(n == "sinh") return std::sinh(a); if(n == "cosh") return std::cosh(a); if(n == "tanh") return std::tanh(a);
    if(n == "ldexp") return std::ldexp(a, (int)b);
    fatal("math function " + n);
}
static float applyF(const std::string& n, float a, float b, float c) {
    if(n == "sin") return sinf(a); if(n == "cos") return cosf(a); if(n == "tan") return tanf(a);
    if(n == "asin") return asinf(a); if(n == "acos") return acosf(a); if(n == "atan") return atanf(a);
    if(n == "atan2") return atan2f(a, b); if(n == "exp") return expf(a); if(n == "log") return logf(a);
    if(n == "exp2") return exp2f(a); if(n == "log2") return log2f(a); if(n == "log10") return log10f(a);
    if(n == "pow") return powf(a, b); if(n == "fmod") return fmodf(a, b);
    if(n == "fma") return fmaf(a, b, c);
    return (float)applyD(n, a, b, c);
}
static int g_fresh = 0;
static E freshReal(const char* nm) { char b[64]; snprintf(b, 64, "%s!%d", nm, g_fresh++); return E(Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), Z3_mk_real_sort(Z))); }
// Math function on possibly symbolic args.  false: state ended.
static bool mathFn(State& s, const std::string& n, const std::vector<V>& a, bool dbl, V& out) {
    bool sym = false, real = false;
    for(auto& x : a) { if(x.e) { sym = true; if(x.e.kind() == Z3_REAL_SORT) real = true; } }
    if(!sym) {
        if(dbl) out = cv(dToBits(applyD(n, bitsToD(a[0].c, true), a.size() > 1 ? bitsToD(a[1].c, true) : 0, a.size() > 2 ? bitsToD(a[2].c, true) : 0), true));
        else { float f = applyF(n, (float)bitsToD(a[0].c, false), a.size() > 1 ? (float)bitsToD(a[1].c, false) : 0, a.size() > 2 ? (float)bitsToD(a[2].c, false) : 0); uint32_t i; memcpy(&i, &f, 4); out = cv(i); }
        return true;
    }
    if(n == "fma") { out = real ? binFP(Instruction::FAdd, binFP(Instruction::FMul, a[0], a[1], dbl), a[2], dbl) : sv(E(Z3_mk_fpa_fma(Z, RNE().a, toFP(a[0], dbl).a, toFP(a[1], dbl).a, toFP(a[2], dbl).a))); return true; }
    bool rnd = n == "floor" || n == "ceil" || n == "trunc" || n == "rint" || n == "nearbyint" || n == "round" || n == "roundeven";
    if(real) {
        E x = toReal(a[0], dbl);
        if(n == "sqrt") {
            E neg(Z3_mk_lt(Z, x.a, realOf(0).a));
            QRes q = query(s, neg);
            if(q.r == UNKNOWN) { noteIncomplete("solver unknown (sqrt argument sign)"); s.dead = true; return false; }
            if(q.r == SAT) { g_restrict++; violation(s, "math", "sqrt of a negative value (NaN)", q.m); s.dead = true; return false; }
            // r >= 0, r*r = x; cached per argument so equal arguments give equal roots
            static std::map<unsigned, E> roots;
            E xs = simp(x);
            auto it = roots.find(xs.id());
            E r;
            if(it == roots.end()) { r = freshReal("sqrt"); roots[xs.id()] = r; varCacheKeep.push_back(xs); } else r = it->second;
            Z3_ast m[2] = {r.a, r.a};
            E def = mkAnd(E(Z3_mk_ge(Z, r.a, realOf(0).a)), mkEq(E(Z3_mk_mul(Z, 2, m)), xs));
            bool have = false; for(auto& p : s.pc) if(p.a == def.a || p.a == simp(def).a) have = true;
            if(!have) {
                QRes q2 = query(s, def);
                if(q2.r != SAT) { noteIncomplete("solver could not extend the path with a square root"); s.dead = true; return false; }
                assumeWith(s, def, q2.m); g_restrict++;
            }
            out = sv(r); return true;
        }
        if(rnd) {
            V w = a[0];
            if(n == "trunc") {}
            else if(n == "floor" || n == "ceil") {}
            else if(n == "round" || n == "rint" || n == "nearbyint" || n == "roundeven") w = binFP(Instruction::FAdd, w, cv(dToBits(0.5, dbl)), dbl);
            // enumerate the integer part
            bool ok; V k = fpToInt(s, w, dbl, 64, true, ok); if(!ok) return false;
            double t = (double)(int64_t)k.c;
            if(n == "trunc") { out = cv(dToBits(t, dbl)); return true; }
            E e = toReal(w, dbl);
            // floor: t if e >= t else t-1;  ceil: t if e <= t else t+1
            bool up = n == "ceil";
            E c = up ? E(Z3_mk_le(Z, e.a, realOf(t).a)) : E(Z3_mk_ge(Z, e.a, realOf(t).a));
            bool v = evalTrue(s.model, c);
            QRes q = query(s, v ? mkNot(c) : c);
            if(q.r == UNKNOWN) { noteIncomplete("solver unknown in rounding"); s.dead = true; return false; }
            if(q.r == SAT) forkInto(s, v ? mkNot(c) : c, q.m);
            assumeWith(s, v ? c : mkNot(c), s.model);
            out = cv(dToBits(v ? t : (up ? t + 1 : t - 1), dbl));
            return true;
        }
    } else {
        if(n == "sqrt") { out = sv(E(Z3_mk_fpa_sqrt(Z, RNE().a, toFP(a[0], dbl).a))); return true; }
        if(rnd) {
            E rm(n == "floor" ? Z3_mk_fpa_rtn(Z) : n == "ceil" ? Z3_mk_fpa_rtp(Z) : n == "trunc" ? Z3_mk_fpa_rtz(Z) : n == "round" ? Z3_mk_fpa_rna(Z) : Z3_mk_fpa_rne(Z));
            out = sv(E(Z3_mk_fpa_round_to_integral(Z, rm.a, toFP(a[0], dbl).a))); return true;
        }
    }
    // everything else: an uninterpreted function of its arguments
    Z3_sort srt = real ? Z3_mk_real_sort(Z) : fpSort(dbl);
    std::vector<Z3_sort> dom(a.size(), srt);
    std::string fn = "uf_" + n + (real ? "_r" : dbl ? "_d" : "_f");
    Z3_func_decl fd = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, fn.c_str()), a.size(), dom.data(), srt);
    std::vector<E> ar; std::vector<Z3_ast> aa;
    for(auto& x : a) { ar.push_back(real ? toReal(x, dbl) : toFP(x, dbl)); aa.push_back(ar.back().a); }
    out = sv(E(Z3_mk_app(Z, fd, aa.size(), aa.data())));
    assumeNotes.insert("uninterpreted function: " + n);
    return true;
}
// ---------------------------------------------------------------- inputs
static V newInput(State& s, const std::string& nm, unsigned bits, bool flt) {
    std::string name = nm + "#" + std::to_string(s.inputs.size());
    std::string key = name + "/" + std::to_string(bits) + (flt ? "f" : "");
    auto it = g_inputIdx.find(key);
    int ix;
    if(it == g_inputIdx.end()) {
        InputVar iv; iv.name = nm; iv.bits = bits; iv.flt = flt; iv.real = flt && optReal;
        iv.e = E(Z3_mk_const(Z, Z3_mk_string_symbol(Z, key.c_str()), iv.real ? Z3_mk_real_sort(Z) : Z3_mk_bv_sort(Z, bits)));
        ix = g_inputs.size(); g_inputs.push_back(iv); g_inputIdx[key] = ix;
    } else ix = it->second;
    s.inputs.push_back(ix);
    return sv(g_inputs[ix].e);
}
// ---------------------------------------------------------------- builtins
enum BR { B_NEXT, B_STOP, B_JUMPED };   // advance / state ended or must retry / pc already set
typedef std::function<BR(State&, CallBase*, std::vector<V>&, V&)> BF;
static std::map<std::string, BF> builtins;
#define ARGC(i, var) u64 var; if(!concretize(s, a[i], bitsOf(I->getArgOperand(i)->getType()), var)) { s.dead = true; return B_STOP; }

static BR doFree(State& s, u64 p, const char* what) {
    if(!p) return B_NEXT;
    auto it = s.mem.find(p);
    if(it == s.mem.end() || !it->second->heap) { violation(s, "memory", std::string(what) + " of a pointer that is not a heap allocation", s.model); s.dead = true; return B_STOP; }
    if(it->second->freed) { violation(s, "memory", std::string("double ") + what, s.model); s.dead = true; return B_STOP; }
    auto n = std::make_shared<MemObj>();
    n->base = it->second->base; n->size = it->second->size; n->name = it->second->name; n->heap = true; n->freed = true;
    it->second = n;
    return B_NEXT;
}
static std::string heapName(State& s) {
    // first frame outside the standard library
    for(size_t i = s.st.size(); i-- > 0;) {
        std::string n = demangle(s.st[i].f->F->getName().str());
        if(n.find("std::") != std::string::npos || n.find("__gnu") != std::string::npos || n.find("operator new") != std::string::npos) continue;
        if(n.size() > 60) n.resize(60);
        return "heap@" + n;
    }
    return "heap";
}
static BR doAlloc(State& s, u64 n, V& r, bool zero) {
    if(n > (1ull << 28)) { noteIncomplete("allocation of more than 256 MiB at " + whereAmI(s)); s.dead = true; return B_STOP; }
    u64 b = allocObj(s, n, heapName(s), true);
    if(zero) { auto o = s.mem[b]; std::fill(o->conc.begin(), o->conc.end(), 0); }
    r = cv(b); return B_NEXT;
}
static BR doAssert(State& s, const V& c, const std::string& msg) {
    S.asserts++; assertCount[msg]++;
    if(!c.e) {
        if(c.c & 1) return B_NEXT;
        violation(s, "assert", msg, s.model); s.dead = true; return B_STOP;
    }
    E e = toBool(c);
    S.assertQueries++;
    QRes q = query(s, mkNot(e));
    if(q.r == SAT) {
        violation(s, "assert", msg, q.m); g_restrict++;
        QRes q2 = query(s, e);
        if(q2.r != SAT) { s.dead = true; return B_STOP; }
        assumeWith(s, e, q2.m);
        return B_NEXT;
    }
    if(q.r == UNKNOWN) { noteIncomplete("solver unknown on assertion: " + msg); g_restrict++; }
    if(q.r == UNSAT) return B_NEXT;        // implied: no need to add it
    QRes q2 = query(s, e);
    if(q2.r != SAT) { s.dead = true; return B_STOP; }
    assumeWith(s, e, q2.m);
    return B_NEXT;
}
static BR doAssume(State& s, const V& c) {
    g_restrict++;
    if(!c.e) { if(c.c & 1) return B_NEXT; S.pathsAssumed++; s.dead = true; return B_STOP; }
    E e = toBool(c);
    QRes q = query(s, e);
    if(q.r == UNKNOWN) noteIncomplete("solver unknown on assumption at " + whereAmI(s));
    if(q.r != SAT) { S.pathsAssumed++; s.dead = true; return B_STOP; }
    assumeWith(s, e, q.m);
    return B_NEXT;
}
static BR trap(State& s, const std::string& what) { violation(s, "trap", what, s.model); s.dead = true; return B_STOP; }

static std::string fmtPrintf(State& s, const std::string& f, const std::vector<V>& va) {
    std::string out; size_t ai = 0;
    for(size_t i = 0; i < f.size(); ++i) {
        if(f[i] != '%') { out += f[i]; continue; }
        if(i + 1 < f.size() && f[i + 1] == '%') { out += '%'; ++i; continue; }
        std::string sp = "%"; ++i;
        bool lng = false; bool star = false;
        while(i < f.size() && strchr("-+ #0123456789.*", f[i])) {
            if(f[i] == '*') { if(ai < va.size()) sp += std::to_string((int)va[ai].c); ai++; star = true; } else sp += f[i];
            ++i;
        }
        while(i < f.size() && strchr("hlLzjt", f[i])) { if(f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') lng = true; ++i; }
        char cnv = i < f.size() ? f[i] : 'd';
        if(ai >= va.size()) { out += "?"; continue; }
        V v = va[ai++];
        char buf[512];
        if(v.e || v.raw) { out += "#"; continue; }
        if(strchr("di", cnv)) { snprintf(buf, sizeof buf, (sp + "lld").c_str(), lng ? (long long)v.c : (long long)(int)v.c); out += buf; }
        else if(strchr("uxXo", cnv)) { snprintf(buf, sizeof buf, (sp + "ll" + cnv).c_str(), lng ? (unsigned long long)v.c : (unsigned long long)(unsigned)v.c); out += buf; }
        else if(strchr("fFgGeEaA", cnv)) { snprintf(buf, sizeof buf, (sp + cnv).c_str(), bitsToD(v.c, true)); out += buf; }
        else if(cnv == 'c') out += (char)v.c;
        else if(cnv == 's') { std::string t = readCStr(s, v.c); std::vector<char> big(t.size() + 600); snprintf(big.data(), big.size(), (sp + "s").c_str(), t.c_str()); out += big.data(); }
        else if(cnv == 'p') { snprintf(buf, sizeof buf, "%p", (void*)v.c); out += buf; }
        else out += '?';
    }
    (void)0;
    return out;
}
static bool writeStr(State& s, u64 p, const std::string& str, u64 cap) {
    if(!cap) return true;
    u64 n = std::min<u64>(str.size(), cap - 1);
    for(u64 i = 0; i < n; ++i) if(!storeN(s, cv(p + i), 1, cv((uint8_t)str[i]))) return false;
    return storeN(s, cv(p + n), 1, cv(0));
}
// read varargs from a va_list laid out by our va_start
static std::vector<V> readVaList(State& s, u64 vl, const std::string& f) {
    std::vector<V> out; u64 area;
    if(!readConc(s, vl + 8, 8, area)) return out;
    ObjP o = findObj(s, area);
    if(!o) return out;
    for(u64 off = area - o->base; off + 8 <= o->size; off += 8) out.push_back(readObj(*o, off, 8));
    return out;
}
static void initBuiltins() {
    auto B = builtins.begin(); (void)B;
    auto def = [&](const char* n, BF f) { builtins[n] = f; };
    // ---- harness API
    auto input = [](unsigned bits, bool flt) { return [bits, flt](State& s, CallBase*, std::vector<V>& a, V& r) { r = newInput(s, readCStr(s, a[0].c), bits, flt); return B_NEXT; }; };
    def("vs_u8", input(8, false)); def("vs_u16", input(16, false)); def("vs_u32", input(32, false)); def("vs_u64", input(64, false)); def("vs_i32", input(32, false)); def("vs_i64", input(64, false));
    def("vs_f32", input(32, true)); def("vs_f64", input(64, true));
    def("vs_bool", [](State& s, CallBase*, std::vector<V>& a, V& r) { V v = newInput(s, readCStr(s, a[0].c), 8, false); r = sv(toBool(v)); return B_NEXT; });
    def("vs_sym", [](State& s, CallBase*, std::vector<V>& a, V&) {
        for(u64 i = 0; i < a[1].c; ++i) if(!storeN(s, cv(a[0].c + i), 1, newInput(s, readCStr(s, a[2].c), 8, false))) return B_STOP;
        return B_NEXT; });
    def("vs_range", [](State& s, CallBase*, std::vector<V>& a, V& r) {
        V v = newInput(s, readCStr(s, a[2].c), 32, false);
        BR b = doAssume(s, boolV(mkAnd(E(Z3_mk_bvsge(Z, v.e.a, toBV(a[0], 32).a)), E(Z3_mk_bvsle(Z, v.e.a, toBV(a[1], 32).a)))));
        r = v; return b; });
    def("vs_choose", [](State& s, CallBase*, std::vector<V>& a, V& r) {
        V v = newInput(s, readCStr(s, a[2].c), 32, false);
        if(a[0].e || a[1].e) fatal("vs_choose with symbolic bounds");
        int lo = (int)a[0].c, hi = (int)a[1].c;
        // fork one state per value
        bool first = true; int mine = 0; StateP base = std::make_shared<State>(s);
        for(int k = hi; k >= lo; --k) {
            E eq = mkEq(v.e, bvc((u64)k, 32));
            QRes q = query(*base, eq);
            if(q.r != SAT) { noteIncomplete("vs_choose: value not satisfiable"); continue; }
            if(k == lo) { assumeWith(s, eq, q.m); mine = k; first = false; }
            else {
                auto n = std::make_shared<State>(*base); n->depth++; assumeWith(*n, eq, q.m);
                Frame& f = n->st.back();
                int d = f.f->insts[f.pc].dest; if(d >= 0) f.regs[d] = cv((u64)(uint32_t)k);
                if(auto* iv = dyn_cast<InvokeInst>(f.f->insts[f.pc].I)) jumpTo(*n, iv->getNormalDest()); else f.pc++;
                work.push_back(n); countFork(s);
            }
        }
        if(first) { s.dead = true; return B_STOP; }
        r = cv((u64)(uint32_t)mine); return B_NEXT; });
    def("vs_assume", [](State& s, CallBase*, std::vector<V>& a, V&) { return doAssume(s, a[0]); });
    def("vs_assert", [](State& s, CallBase*, std::vector<V>& a, V&) { return doAssert(s, a[0], readCStr(s, a[1].c)); });
    def("vs_reach", [](State& s, CallBase*, std::vector<V>& a, V&) {
        std::string l = readCStr(s, a[0].c);
        if(!reachCount[l]++ && sampleModel.empty()) { auto in = inputsUnder(s, s.model); for(auto& t : in) { if(sampleModel.size() > 400) break; sampleModel += std::get<0>(t) + "=" + std::get<2>(t) + " "; } }
        return B_NEXT; });
    def("vs_note", [](State& s, CallBase*, std::vector<V>& a, V&) { s.notes.push_back(readCStr(s, a[0].c)); return B_NEXT; });
    def("vs_case", [](State&, CallBase*, std::vector<V>&, V& r) { r = cv((u64)(uint32_t)optCase); return B_NEXT; });
    def("vs_tier", [](State&, CallBase*, std::vector<V>&, V& r) { r = cv((u64)(uint32_t)optTier); return B_NEXT; });
    def("vs_symbolic", [](State&, CallBase*, std::vector<V>&, V& r) { r = cv(1); return B_NEXT; });
    def("vs_realmode", [](State&, CallBase*, std::vector<V>&, V& r) { r = cv(optReal); return B_NEXT; });
    def("vs_issym", [](State& s, CallBase*, std::vector<V>& a, V& r) { bool y = a[0].sym(); if(y && a[0].e.kind() == Z3_BV_SORT) { u64 k; E e = simp(a[0].e); y = !isNum(e, k); } r = cv(y); return B_NEXT; });
    def("vs_issymf", [](State& s, CallBase*, std::vector<V>& a, V& r) { r = cv(a[0].sym()); return B_NEXT; });
    def("vs_done", [](State& s, CallBase*, std::vector<V>&, V&) { S.paths++; s.dead = true; return B_STOP; });
    def("vs_fail", [](State& s, CallBase*, std::vector<V>& a, V&) { return doAssert(s, cv(0), readCStr(s, a[0].c)); });
    def("vs_concrete", [](State& s, CallBase* I, std::vector<V>& a, V& r) { ARGC(0, v); r = cv(v); return B_NEXT; });
    def("vs_print", [](State& s, CallBase*, std::vector<V>& a, V&) { fprintf(stderr, "[print] %s %s\n", readCStr(s, a[0].c).c_str(), a[1].e ? Z3_ast_to_string(Z, a[1].e.a) : std::to_string((int64_t)a[1].c).c_str()); return B_NEXT; });
    def("vs_memo_fmt_double", [](State& s, CallBase*, std::vector<V>& a, V& r) {   // (char* buf, u64 cap, double v, int prec, int mode) -> len
        std::string t;
        if(a[2].e) { t = "#"; assumeNotes.insert("symbolic number formatted as '#'"); }
        else { char b[400]; int prec = (int)a[3].c; const char* f = a[4].c == 1 ? "%.*f" : a[4].c == 2 ? "%.*e" : "%.*g"; snprintf(b, sizeof b, f, prec, bitsToD(a[2].c, true)); t = b; }
        if(!writeStr(s, a[0].c, t, a[1].c)) return B_STOP;
        r = cv(t.size()); return B_NEXT; });
    // ---- allocation
    auto alloc = [](State& s, CallBase* I, std::vector<V>& a, V& r) { ARGC(0, n); return doAlloc(s, n, r, false); };
    for(const char* n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "valloc"}) def(n, alloc);
    def("calloc", [](State& s, CallBase* I, std::vector<V>& a, V& r) { ARGC(0, n); ARGC(1, m); return doAlloc(s, n * m, r, true); });
    auto fr = [](State& s, CallBase* I, std::vector<V>& a, V&) { ARGC(0, p); return doFree(s, p, "free"); };
    for(const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) def(n, fr);
    def("realloc", [](State& s, CallBase* I, std::vector<V>& a, V& r) {
        ARGC(0, p); ARGC(1, n);
        BR b = doAlloc(s, n, r, false); if(b != B_NEXT) return b;
        if(p) { auto it = s.mem.find(p); if(it == s.mem.end()) return trap(s, "realloc of bad pointer"); if(!copyMem(s, r, cv(p), std::min(n, it->second->size))) return B_STOP; return doFree(s, p, "realloc"); }
        return B_NEXT; });
    // ---- memory
    auto cp = [](State& s, CallBase* I, std::vector<V>& a, V& r) { ARGC(2, n); if(!copyMem(s, a[0], a[1], n)) return B_STOP; r = a[0]; return B_NEXT; };
    def("memcpy", cp); def("memmove", cp);
    auto st = [](State& s, CallBase* I, std::vector<V>& a, V& r) {
        ARGC(2, n); ARGC(0, p);
        V b = a[1];
        if(b.e) b = sv(mkExtract(7, 0, toBV(b, bitsOf(I->getArgOperand(1)->getType())))); else b.c &= 255;
        if(n) { Loc L; if(!resolve(s, cv(p), n, L, "write (memset)")) return B_STOP; }
        if(n && !b.e) {
            ObjP o = findObj(s, p);
            if(o->ro) return trap(s, "memset of constant object");
            MemObj* w = writable(s, o);
            u64 off = p - w->base; memset(&w->conc[off], (int)b.c, n);
            if(!w->symb.empty()) for(u64 i = 0; i < n; ++i) w->symb.erase(off + i);
        } else for(u64 i = 0; i < n; ++i) if(!storeN(s, cv(p + i), 1, b)) return B_STOP;
        r = a[0]; return B_NEXT; };
    def("memset", st);
    // ---- exceptions
    def("__cxa_allocate_exception", [](State& s, CallBase* I, std::vector<V>& a, V& r) { ARGC(0, n); return doAlloc(s, n, r, false); });
    def("__cxa_free_exception", fr);
    def("__cxa_throw", [](State& s, CallBase* I, std::vector<V>& a, V&) { Exc x; x.obj = a[0].c; x.tinfo = a[1].c; x.dtor = a[2].c; s.excs[a[0].c] = x; unwindExc(s, a[0].c); return s.dead ? B_STOP : B_JUMPED; });
    def("__cxa_begin_catch", [](State& s, CallBase* I, std::vector<V>& a, V& r) { Exc& x = s.excs[a[0].c]; x.count++; x.rethrown = false; s.caught.push_back(a[0].c); r = cv(x.adj ? x.adj : x.obj); return B_NEXT; });
    def("__cxa_get_exception_ptr", [](State& s, CallBase* I, std::vector<V>& a, V& r) { Exc& x = s.excs[a[0].c]; r = cv(x.adj ? x.adj : x.obj); return B_NEXT; });
    // helper used by __cxa_end_catch in rt.cpp: pops; returns object to destroy or 0 and stores dtor
    def("__vs_end_catch", [](State& s, CallBase* I, std::vector<V>& a, V& r) {
        if(s.caught.empty()) return trap(s, "__cxa_end_catch without catch");
        u64 o = s.caught.back(); s.caught.pop_back(); Exc& x = s.excs[o];
        x.count--;
        if(x.count == 0 && !x.rethrown) { if(!storeN(s, a[0], 8, cv(x.dtor))) return B_STOP; r = cv(o); s.excs.erase(o); }
        else r = cv(0);
        return B_NEXT; });
    def("__cxa_rethrow", [](State& s, CallBase* I, std::vector<V>& a, V&) { if(s.caught.empty()) return trap(s, "rethrow without exception (std::terminate)"); u64 o = s.caught.back(); s.excs[o].rethrown = true; unwindExc(s, o); return s.dead ? B_STOP : B_JUMPED; });
    auto uncaught = [](State& s, CallBase*, std::vector<V>&, V& r) { int n = 0; for(auto& p : s.excs) if(p.second.count == 0 || p.second.rethrown) n++; r = cv(n); return B_NEXT; };
    def("_ZSt18uncaught_exceptionv", uncaught); def("_ZSt19uncaught_exceptionsv", uncaught);
    for(const char* n : {"abort", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "__assert_fail", "exit", "_exit", "__cxa_bad_cast", "__cxa_bad_typeid", "__stack_chk_fail", "__cxa_call_unexpected", "_ZSt10unexpectedv", "__cxa_throw_bad_array_new_length"}) {
        std::string nm = n;
        def(n, [nm](State& s, CallBase*, std::vector<V>& a, V&) { std::string m = nm + " called"; if(nm == "__assert_fail") m += ": " + readCStr(s, a[0].c); return trap(s, m); });
    }
    // ---- stdio-like formatting
    def("snprintf", [](State& s, CallBase* I, std::vector<V>& a, V& r) { ARGC(1, cap); std::string t = fmtPrintf(s, readCStr(s, a[2].c), std::vector<V>(a.begin() + 3, a.end())); if(a[0].c && !writeStr(s, a[0].c, t, cap)) return B_STOP; r = cv(t.size()); return B_NEXT; });
    def("sprintf", [](State& s, CallBase* I, std::vector<V>& a, V& r) { std::string t = fmtPrintf(s, readCStr(s, a[1].c), std::vector<V>(a.begin() + 2, a.end())); if(!writeStr(s, a[0].c, t, t.size() + 1)) return B_STOP; r = cv(t.size()); return B_NEXT; });
    def("vsnprintf", [](State& s, CallBase* I, std::vector<V>& a, V& r) { ARGC(1, cap); std::string f = readCStr(s, a[2].c); std::string t = fmtPrintf(s, f, readVaList(s, a[3].c, f)); if(a[0].c && !writeStr(s, a[0].c, t, cap)) return B_STOP; r = cv(t.size()); return B_NEXT; });
    def("vsprintf", [](State& s, CallBase* I, std::vector<V>& a, V& r) { std::string f = readCStr(s, a[1].c); std::string t = fmtPrintf(s, f, readVaList(s, a[2].c, f)); if(!writeStr(s, a[0].c, t, t.size() + 1)) return B_STOP; r = cv(t.size()); return B_NEXT; });
    for(const char* n : {"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "fwrite", "vfprintf"}) def(n, [](State&, CallBase*, std::vector<V>&, V& r) { r = cv(0); return B_NEXT; });
    auto sd = [](bool dbl) { return [dbl](State& s, CallBase* I, std::vector<V>& a, V& r) {
        std::string t; u64 p = a[0].c, c = 0; 
        for(;; ++p) { ObjP o = findObj(s, p); if(!o || p >= o->base + o->size) break; V v = readObj(*o, p - o->base, 1); if(!concretize(s, v, 8, c)) { s.dead = true; return B_STOP; } if(!c || t.size() > 300) break; t += (char)c; }
        char* e; double d = dbl ? strtod(t.c_str(), &e) : (double)strtof(t.c_str(), &e);
        if(a.size() > 1 && a[1].c) if(!storeN(s, a[1], 8, cv(a[0].c + (e - t.c_str())))) return B_STOP;
        r = cv(dToBits(d, dbl)); return B_NEXT; }; };
    def("strtod", sd(true)); def("strtof", sd(false)); def("atof", sd(true));
    // ---- libm
    for(const char* n : {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "exp2", "log2", "log10", "pow", "fmod", "sqrt", "floor", "ceil", "trunc", "rint", "nearbyint", "round", "fma", "cbrt", "hypot", "sinh", "cosh", "tanh"}) {
        std::string nm = n;
        def(n, [nm](State& s, CallBase*, std::vector<V>& a, V& r) { return mathFn(s, nm, a, true, r) ? B_NEXT : B_STOP; });
        def((nm + "f").c_str(), [nm](State& s, CallBase*, std::vector<V>& a, V& r) { return mathFn(s, nm, a, false, r) ? B_NEXT : B_STOP; });
    }
    for(const char* n : {"fabs", "fabsf"}) { bool d = !strcmp(n, "fabs"); def(n, [d](State&, CallBase*, std::vector<V>& a, V& r) { r = fabsV(a[0], d); return B_NEXT; }); }
    for(const char* n : {"lrint", "lrintf", "lround", "lroundf"}) {
        bool d = n[strlen(n) - 1] != 'f'; std::string base = !strncmp(n, "lrint", 5) ? "rint" : "round";
        def(n, [d, base](State& s, CallBase*, std::vector<V>& a, V& r) { V t; if(!mathFn(s, base, a, d, t)) return B_STOP; bool ok; r = fpToInt(s, t, d, 64, true, ok); return ok ? B_NEXT : B_STOP; });
    }
    for(const char* n : {"ldexp", "ldexpf"}) { bool d = !strcmp(n, "ldexp"); def(n, [d](State& s, CallBase* I, std::vector<V>& a, V& r) { ARGC(1, k); r = binFP(Instruction::FMul, a[0], cv(dToBits(std::ldexp(1.0, (int)k), d)), d); return B_NEXT; }); }
    for(const char* n : {"frexp", "frexpf"}) { bool d = !strcmp(n, "frexp"); def(n, [d](State& s, CallBase* I, std::vector<V>& a, V& r) { if(a[0].e) fatal("symbolic frexp"); int e; double m = std::frexp(bitsToD(a[0].c, d), &e); if(!storeN(s, a[1], 4, cv((uint32_t)e))) return B_STOP; r = cv(dToBits(m, d)); return B_NEXT; }); }
    for(const char* n : {"modf", "modff"}) { bool d = !strcmp(n, "modf"); def(n, [d](State& s, CallBase* I, std::vector<V>& a, V& r) { V t; if(!mathFn(s, "trunc", {a[0]}, d, t)) return B_STOP; if(!storeN(s, a[1], d ? 8 : 4, t)) return B_STOP; r = binFP(Instruction::FSub, a[0], t, d); return B_NEXT; }); }
    // ---- misc
    def("__cxa_atexit", [](State&, CallBase*, std::vector<V>&, V& r) { r = cv(0); return B_NEXT; });
    def("__errno_location", [](State& s, CallBase*, std::vector<V>&, V& r) { if(!s.errnoAddr) { s.errnoAddr = allocObj(s, 4, "errno", true); storeN(s, cv(s.errnoAddr), 4, cv(0)); } r = cv(s.errnoAddr); return B_NEXT; });
    for(const char* n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_once", "pthread_self", "__gthread_active_p", "__pthread_key_create", "pthread_key_create", "pthread_getspecific", "pthread_setspecific"})
        def(n, [](State&, CallBase*, std::vector<V>&, V& r) { r = cv(0); return B_NEXT; });
    def("getenv", [](State&, CallBase*, std::vector<V>&, V& r) { r = cv(0); return B_NEXT; });
    def("__libc_single_threaded", [](State&, CallBase*, std::vector<V>&, V& r) { r = cv(1); return B_NEXT; });
}

// ---------------------------------------------------------------- intrinsics
static BR intrinsic(State& s, CallBase* I, Function* F, std::vector<V>& a, V& r) {
    Type* T = I->getType();
    auto per = [&](const std::function<V(std::vector<V>&, Type*)>& fn) {
        if(!isAggTy(T)) { r = fn(a, T); return; }
        r = V(); r.agg = std::make_shared<std::vector<V>>();
        for(unsigned i = 0, n = aggN(T); i < n; ++i) {
            std::vector<V> b; for(auto& x : a) b.push_back(x.agg ? (*x.agg)[i] : x);
            r.agg->push_back(fn(b, aggElt(T, i)));
        }
    };
    auto math = [&](const char* nm) -> BR {
        bool ok = true;
        per([&](std::vector<V>& b, Type* t) { V o; if(ok && !mathFn(s, nm, b, isDblTy(t), o)) ok = false; return o; });
        return ok ? B_NEXT : B_STOP;
    };
    auto sel = [&](CmpInst::Predicate p) { per([&](std::vector<V>& b, Type* t) { V c = icmp(p, b[0], b[1], bitsOf(t)); if(!c.e) return c.c ? b[0] : b[1]; return iteV(c.e, b[0], b[1], t); }); return B_NEXT; };
    switch(F->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::vaend:
            return B_NEXT;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: r = cv(0); return B_NEXT;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
            r = a[0]; return B_NEXT;
        case Intrinsic::is_constant: r = cv(0); return B_NEXT;
        case Intrinsic::objectsize: r = cv(~0ull); return B_NEXT;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return builtins["memcpy"](s, I, a, r);
        case Intrinsic::memset: case Intrinsic::memset_inline: return builtins["memset"](s, I, a, r);
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return trap(s, "trap instruction");
        case Intrinsic::eh_typeid_for: r = cv(typeIdOf(a[0].c)); return B_NEXT;
        case Intrinsic::vastart: {
            Frame& f = s.st.back();
            if(!f.varArea) {
                f.varArea = allocObj(s, 8 * f.varargs.size() + 8, "varargs", false);
                Frame& g = s.st.back(); g.allocas.push_back(g.varArea);
                for(size_t i = 0; i < g.varargs.size(); ++i) { if(!storeN(s, cv(g.varArea + 8 * i), 8, g.varargs[i])) return B_STOP; }
            }
            u64 va = s.st.back().varArea;
            storeN(s, a[0], 4, cv(48)); storeN(s, ptrAdd(a[0], 4), 4, cv(304)); storeN(s, ptrAdd(a[0], 8), 8, cv(va)); storeN(s, ptrAdd(a[0], 16), 8, cv(0));
            return B_NEXT;
        }
        case Intrinsic::vacopy: return copyMem(s, a[0], a[1], 24) ? B_NEXT : B_STOP;
        case Intrinsic::smax: return sel(CmpInst::ICMP_SGT);
        case Intrinsic::smin: return sel(CmpInst::ICMP_SLT);
        case Intrinsic::umax: return sel(CmpInst::ICMP_UGT);
        case Intrinsic::umin: return sel(CmpInst::ICMP_ULT);
        case Intrinsic::abs: per([&](std::vector<V>& b, Type* t) { unsigned w = bitsOf(t); V c = icmp(CmpInst::ICMP_SLT, b[0], cv(0), w); V n = binInt(Instruction::Sub, cv(0), b[0], w); if(!c.e) return c.c ? n : b[0]; return iteV(c.e, n, b[0], t); }); return B_NEXT;
        case Intrinsic::bswap: per([&](std::vector<V>& b, Type* t) {
            unsigned w = bitsOf(t);
            if(!b[0].e) { u64 o = 0; for(unsigned i = 0; i < w / 8; ++i) o |= ((b[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); return cv(o); }
            E x = toBV(b[0], w), o; for(unsigned i = 0; i < w / 8; ++i) { E by = mkExtract(8 * i + 7, 8 * i, x); o = o ? E(Z3_mk_concat(Z, o.a, by.a)) : by; }
            return sv(o); }); return B_NEXT;
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            unsigned id = F->getIntrinsicID();
            per([&](std::vector<V>& b, Type* t) {
                unsigned w = bitsOf(t);
                if(!b[0].e) {
                    u64 x = maskTo(b[0].c, w);
                    if(id == Intrinsic::ctpop) return cv(__builtin_popcountll(x));
                    if(id == Intrinsic::cttz) return cv(x ? __builtin_ctzll(x) : w);
                    return cv(x ? __builtin_clzll(x) - (64 - w) : w);
                }
                E x = toBV(b[0], w);
                E o = bvc(id == Intrinsic::ctpop ? 0 : w, w);
                for(unsigned k = 0; k < w; ++k) {
                    unsigned i = id == Intrinsic::cttz ? w - 1 - k : k;
                    E bit = mkEq(mkExtract(i, i, x), bvc(1, 1));
                    if(id == Intrinsic::ctpop) o = E(Z3_mk_bvadd(Z, o.a, mkIte(bit, bvc(1, w), bvc(0, w)).a));
                    else o = mkIte(bit, bvc(id == Intrinsic::cttz ? i : w - 1 - i, w), o);
                }
                return sv(o); });
            return B_NEXT;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            bool left = F->getIntrinsicID() == Intrinsic::fshl;
            per([&](std::vector<V>& b, Type* t) {
                unsigned w = bitsOf(t);
                V sh = binInt(Instruction::URem, b[2], cv(w), w);
                V inv = binInt(Instruction::Sub, cv(w), sh, w);
                V hi = left ? binInt(Instruction::Shl, b[0], sh, w) : binInt(Instruction::Shl, b[0], inv, w);
                V lo = left ? binInt(Instruction::LShr, b[1], inv, w) : binInt(Instruction::LShr, b[1], sh, w);
                return binInt(Instruction::Or, hi, lo, w); });
            return B_NEXT;
        }
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
            unsigned id = F->getIntrinsicID();
            unsigned w = bitsOf(I->getArgOperand(0)->getType());
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            unsigned op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Instruction::Add : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Instruction::Sub : Instruction::Mul;
            V res = binInt(op, a[0], a[1], w);
            V ov;
            if(!a[0].e && !a[1].e) {
                __int128 x = sg ? (__int128)sext(a[0].c, w) : (__int128)maskTo(a[0].c, w), y = sg ? (__int128)sext(a[1].c, w) : (__int128)maskTo(a[1].c, w);
                __int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
                __int128 back = sg ? (__int128)sext(res.c, w) : (__int128)maskTo(res.c, w);
                ov = cv(z != back);
            } else {
                unsigned w2 = op == Instruction::Mul ? 2 * w : w + 1;
                auto ext = [&](const V& v) { E x = toBV(v, w); return sg ? E(Z3_mk_sign_ext(Z, w2 - w, x.a)) : E(Z3_mk_zero_ext(Z, w2 - w, x.a)); };
                V big = binInt(op, sv(ext(a[0])), sv(ext(a[1])), w2);
                ov = boolV(simp(mkNot(mkEq(toBV(big, w2), ext(res)))));
            }
            r = V(); r.agg = std::make_shared<std::vector<V>>(); r.agg->push_back(res); r.agg->push_back(ov);
            return B_NEXT;
        }
        case Intrinsic::usub_sat: per([&](std::vector<V>& b, Type* t) { unsigned w = bitsOf(t); V c = icmp(CmpInst::ICMP_ULT, b[0], b[1], w); V d = binInt(Instruction::Sub, b[0], b[1], w); if(!c.e) return c.c ? cv(0) : d; return iteV(c.e, cv(0), d, t); }); return B_NEXT;
        case Intrinsic::uadd_sat: per([&](std::vector<V>& b, Type* t) { unsigned w = bitsOf(t); V d = binInt(Instruction::Add, b[0], b[1], w); V c = icmp(CmpInst::ICMP_ULT, d, b[0], w); if(!c.e) return c.c ? cv(maskTo(~0ull, w)) : d; return iteV(c.e, cv(maskTo(~0ull, w)), d, t); }); return B_NEXT;
        case Intrinsic::fabs: per([&](std::vector<V>& b, Type* t) { return fabsV(b[0], isDblTy(t)); }); return B_NEXT;
        case Intrinsic::sqrt: return math("sqrt"); case Intrinsic::floor: return math("floor"); case Intrinsic::ceil: return math("ceil");
        case Intrinsic::trunc: return math("trunc"); case Intrinsic::rint: return math("rint"); case Intrinsic::nearbyint: return math("nearbyint");
        case Intrinsic::round: return math("round"); case Intrinsic::roundeven: return math("rint");
        case Intrinsic::sin: return math("sin"); case Intrinsic::cos: return math("cos"); case Intrinsic::exp: return math("exp"); case Intrinsic::log: return math("log");
        case Intrinsic::exp2: return math("exp2"); case Intrinsic::log2: return math("log2"); case Intrinsic::log10: return math("log10"); case Intrinsic::pow: return math("pow"); case Intrinsic::fma: return math("fma");
        case Intrinsic::fmuladd: per([&](std::vector<V>& b, Type* t) { return binFP(Instruction::FAdd, binFP(Instruction::FMul, b[0], b[1], isDblTy(t)), b[2], isDblTy(t)); }); return B_NEXT;
        case Intrinsic::powi: { V k = a[1]; u64 n; if(!concretize(s, k, 32, n)) { s.dead = true; return B_STOP; } int e = (int)n; bool d = isDblTy(T); V x = a[0], o = cv(dToBits(1, d)); for(int i = 0; i < std::abs(e); ++i) o = binFP(Instruction::FMul, o, x, d); if(e < 0) o = binFP(Instruction::FDiv, cv(dToBits(1, d)), o, d); r = o; return B_NEXT; }
        case Intrinsic::copysign: per([&](std::vector<V>& b, Type* t) {
            bool d = isDblTy(t); unsigned w = bitsOf(t);
            if(!b[0].e && !b[1].e) { u64 sb = 1ull << (w - 1); return cv((b[0].c & ~sb) | (b[1].c & sb)); }
            if(isRealMix(b[0], b[1])) { E y = toReal(b[1], d); E ab = toReal(fabsV(b[0], d), d); return sv(mkIte(E(Z3_mk_ge(Z, y.a, realOf(0).a)), ab, E(Z3_mk_unary_minus(Z, ab.a)))); }
            E x = toBV(b[0], w), y = toBV(b[1], w); return sv(E(Z3_mk_concat(Z, mkExtract(w - 1, w - 1, y).a, mkExtract(w - 2, 0, x).a))); }); return B_NEXT;
        case Intrinsic::minnum: case Intrinsic::maxnum: {
            bool mx = F->getIntrinsicID() == Intrinsic::maxnum;
            per([&](std::vector<V>& b, Type* t) {
                bool d = isDblTy(t);
                V c = fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, b[0], b[1], d), n = fcmp(CmpInst::FCMP_UNO, b[1], b[1], d);
                V k = binInt(Instruction::Or, c, n, 1);
                if(!k.e) return k.c ? b[0] : b[1];
                return iteV(toBool(k), b[0], b[1], t); });
            return B_NEXT;
        }
        case Intrinsic::is_fpclass: {
            bool d = isDblTy(I->getArgOperand(0)->getType()); unsigned w = d ? 64 : 32; u64 m = a[1].c;
            if(a[0].e && a[0].e.kind() == Z3_REAL_SORT) {
                // reals: normal or zero only
                E z = mkEq(a[0].e, realOf(0)), neg(Z3_mk_lt(Z, a[0].e.a, realOf(0).a));
                E res = mkBool(false);
                if(m & 0x60) res = mkOr(res, z);
                if(m & 0x108) res = mkOr(res, mkAnd(mkNot(z), (m & 0x108) == 0x108 ? mkBool(true) : (m & 8) ? neg : mkNot(neg)));
                r = boolV(simp(res)); return B_NEXT;
            }
            E x = simp(toBV(a[0], w));
            u64 expM = d ? 0x7ff : 0xff; unsigned mb = d ? 52 : 23;
            E sgn = mkEq(mkExtract(w - 1, w - 1, x), bvc(1, 1)), ex = mkExtract(w - 2, mb, x), mant = mkExtract(mb - 1, 0, x);
            E e1 = mkEq(ex, bvc(expM, w - 1 - mb)), e0 = mkEq(ex, bvc(0, w - 1 - mb)), m0 = mkEq(mant, bvc(0, mb));
            E q = mkEq(mkExtract(mb - 1, mb - 1, mant), bvc(1, 1));
            E cls[10] = { mkAnd(mkAnd(e1, mkNot(m0)), mkNot(q)), mkAnd(mkAnd(e1, mkNot(m0)), q), mkAnd(sgn, mkAnd(e1, m0)), mkAnd(sgn, mkAnd(mkNot(e1), mkNot(e0))), mkAnd(sgn, mkAnd(e0, mkNot(m0))), mkAnd(sgn, mkAnd(e0, m0)),
                          mkAnd(mkNot(sgn), mkAnd(e0, m0)), mkAnd(mkNot(sgn), mkAnd(e0, mkNot(m0))), mkAnd(mkNot(sgn), mkAnd(mkNot(e1), mkNot(e0))), mkAnd(mkNot(sgn), mkAnd(e1, m0)) };
            E res = mkBool(false);
            for(int i = 0; i < 10; ++i) if(m & (1 << i)) res = mkOr(res, cls[i]);
            r = boolV(simp(res)); return B_NEXT;
        }
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
            unsigned id = F->getIntrinsicID(); unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : Instruction::Xor;
            V acc = (*a[0].agg)[0]; for(size_t i = 1; i < a[0].agg->size(); ++i) acc = binInt(op, acc, (*a[0].agg)[i], bitsOf(T));
            r = acc; return B_NEXT;
        }
        default: break;
    }
    noteIncomplete("unmodelled intrinsic " + F->getName().str());
    s.dead = true; return B_STOP;
}

// ---------------------------------------------------------------- calls
static void afterCall(State& s, const V& r) {
    Frame& f = s.st.back();
    KInst& ki = f.f->insts[f.pc];
    if(ki.dest >= 0) f.regs[ki.dest] = r;
    if(auto* iv = dyn_cast<InvokeInst>(ki.I)) jumpTo(s, iv->getNormalDest());
    else f.pc++;
}
static std::unordered_map<const Function*, BF*> bfCache;
static unsigned optMaxDepth = 3000;
static void doCall(State& s, CallBase* I, KInst& ki) {
    Frame& f = s.st.back();
    unsigned na = I->arg_size();
    Function* F = I->getCalledFunction();
    if(!F) {
        if(I->isInlineAsm()) {
            auto* ia = cast<InlineAsm>(I->getCalledOperand());
            if(!ia->getAsmString().empty()) { noteIncomplete("inline assembly: " + ia->getAsmString()); s.dead = true; return; }
            V r; if(!I->getType()->isVoidTy()) { if(na) r = opv(f, ki.ops[0]); else r = zeroOf(I->getType()); }
            afterCall(s, r); return;
        }
        const Op& co = ki.ops[ki.I->getNumOperands() - 1];
        u64 fa; if(!concretize(s, opv(f, co), 64, fa)) { s.dead = true; return; }
        auto it = faddr.find(fa);
        if(it == faddr.end()) { violation(s, "memory", "indirect call through an invalid function pointer", s.model); s.dead = true; return; }
        F = it->second;
    }
    std::vector<V> args; args.reserve(na);
    for(unsigned i = 0; i < na; ++i) args.push_back(opv(f, ki.ops[i]));
    auto bc = bfCache.find(F);
    BF* bf = nullptr;
    if(bc == bfCache.end()) {
        auto bi = builtins.find(F->getName().str());
        if(bi != builtins.end()) bf = &bi->second;
        bfCache[F] = bf;
    } else bf = bc->second;
    if(bf || F->isIntrinsic()) {
        V r;
        BR b = bf ? (*bf)(s, I, args, r) : intrinsic(s, I, F, args, r);
        if(b == B_NEXT && !s.dead) afterCall(s, r);
        return;
    }
    if(F->isDeclaration()) {
        noteIncomplete("call to unmodelled external function " + demangle(F->getName().str()) + " from " + whereAmI(s));
        s.dead = true; return;
    }
    if(s.st.size() > optMaxDepth) {
        if(optLimitIsViolation) violation(s, "limit", "call depth exceeds " + std::to_string(optMaxDepth), s.model); else noteIncomplete("call depth limit at " + whereAmI(s));
        s.dead = true; return;
    }
    KFunc* k = prepare(F);
    Frame nf; nf.f = k; nf.regs.resize(k->nslots);
    for(unsigned i = 0; i < F->arg_size(); ++i) {
        if(i >= args.size()) { nf.regs[k->argSlots[i]] = zeroOf(F->getArg(i)->getType()); continue; }
        if(I->isByValArgument(i)) {
            u64 sz = DL->getTypeAllocSize(I->getParamByValType(i)).getFixedValue();
            u64 b = allocObj(s, sz, "byval arg", false);
            nf.allocas.push_back(b);
            if(!copyMem(s, cv(b), args[i], sz)) return;
            nf.regs[k->argSlots[i]] = cv(b);
        } else nf.regs[k->argSlots[i]] = args[i];
    }
    if(F->isVarArg()) for(unsigned i = F->arg_size(); i < na; ++i) {
        V v = args[i];
        if(!v.e && I->getArgOperand(i)->getType()->isIntegerTy(32)) v.c = maskTo(v.c, 32);
        if(v.e && bitsOf(I->getArgOperand(i)->getType()) == 32) v = sv(E(Z3_mk_zero_ext(Z, 32, toBV(v, 32).a)));
        nf.varargs.push_back(v);
    }
    s.st.push_back(std::move(nf));
}


// ---------------------------------------------------------------- merging
// At a symbolic branch whose immediate postdominator J is close, the sides are
// run to J and the states that get there are merged (ITE on what differs, the
// path condition becomes the disjunction).  States that do not get there, or
// that differ in something better kept apart (pointers, sizes), go on separately.
struct PostDom { std::unordered_map<const BasicBlock*, const BasicBlock*> ip; };
static std::unordered_map<const Function*, PostDom> pdoms;
static void normalSuccs(const BasicBlock* b, std::vector<const BasicBlock*>& o) {
    o.clear();
    const Instruction* t = b->getTerminator();
    if(auto* iv = dyn_cast<InvokeInst>(t)) { o.push_back(iv->getNormalDest()); return; }
    for(unsigned i = 0; i < t->getNumSuccessors(); ++i) o.push_back(t->getSuccessor(i));
}
static const PostDom& pdomOf(const Function* F) {
    auto it = pdoms.find(F);
    if(it != pdoms.end()) return it->second;
    PostDom& P = pdoms[F];
    // blocks numbered in postorder of the reverse graph (from the returns)
    std::unordered_map<const BasicBlock*, std::vector<const BasicBlock*>> preds;
    std::vector<const BasicBlock*> su;
    std::vector<const BasicBlock*> rets;
    for(auto& B : *F) { normalSuccs(&B, su); for(auto* x : su) preds[x].push_back(&B); if(isa<ReturnInst>(B.getTerminator())) rets.push_back(&B); }
    std::unordered_map<const BasicBlock*, int> num; // reverse-graph postorder number
    std::vector<const BasicBlock*> order;
    std::set<const BasicBlock*> seen;
    for(auto* r : rets) {
        if(!seen.insert(r).second) continue;
        std::vector<std::pair<const BasicBlock*, size_t>> stk{{r, 0}};
        while(!stk.empty()) {
            auto& tp = stk.back();
            auto& pr = preds[tp.first];
            if(tp.second < pr.size()) { auto* n = pr[tp.second++]; if(seen.insert(n).second) stk.emplace_back(n, 0); }
            else { num[tp.first] = order.size(); order.push_back(tp.first); stk.pop_back(); }
        }
    }
    int N = order.size();           // virtual exit = N
    std::vector<int> idom(N + 1, -1); idom[N] = N;
    auto inter = [&](int a, int b) { while(a != b) { while(a < b) a = idom[a]; while(b < a) b = idom[b]; } return a; };
    bool ch = true;
    while(ch) {
        ch = false;
        for(int i = N - 1; i >= 0; --i) {
            const BasicBlock* b = order[i];
            int nd = -1;
            if(isa<ReturnInst>(b->getTerminator())) nd = N;
            normalSuccs(b, su);
            for(auto* x : su) { auto jt = num.find(x); if(jt == num.end() || idom[jt->second] < 0) continue; nd = nd < 0 ? jt->second : inter(jt->second, nd); }
            if(nd >= 0 && idom[i] != nd) { idom[i] = nd; ch = true; }
        }
    }
    for(int i = 0; i < N; ++i) P.ip[order[i]] = idom[i] >= 0 && idom[i] < N ? order[idom[i]] : nullptr;
    return P;
}
struct RegionInfo { const BasicBlock* J = nullptr; bool ok = false; };
static std::unordered_map<const BasicBlock*, RegionInfo> regions;
static unsigned optMergeStatic = 250, optMergeDyn = 600, optMergeNest = 10, optMergeStates = 64;
static bool optMergeLoops = false;
static const RegionInfo& regionOf(const BasicBlock* B) {
    auto it = regions.find(B);
    if(it != regions.end()) return it->second;
    RegionInfo r;
    const PostDom& P = pdomOf(B->getParent());
    auto jt = P.ip.find(B);
    if(jt != P.ip.end() && jt->second) {
        r.J = jt->second;
        // region size and acyclicity w.r.t. B
        std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> stk{B}, su; unsigned n = 0; r.ok = true;
        while(!stk.empty() && r.ok) {
            auto* b = stk.back(); stk.pop_back();
            normalSuccs(b, su);
            for(auto* x : su) {
                if(x == r.J) continue;
                if(x == B && !optMergeLoops) { r.ok = false; break; }
                if(!P.ip.count(x)) continue;          // cannot return normally
                if(seen.insert(x).second) { n += x->size(); stk.push_back(x); if(n > optMergeStatic) { r.ok = false; break; } }
            }
        }
    }
    return regions[B] = r;
}
static bool looksPtr(State& s, u64 v) { return v >= 0x400000 && (findObj(s, v) || faddr.count(v)); }
static bool mergeWord(State& a, State& b, const E& c, const MemObj& oa, const MemObj& ob, u64 off, unsigned n, V& out) {
    V x = readObj(oa, off, n), y = readObj(ob, off, n);
    if(x.raw || y.raw) return false;
    if(!x.e && !y.e) {
        if(x.c == y.c) { out = x; return true; }
        if(n == 8) return false;           // pointer or size: keep the states apart
        if(optReal) return false == false ? (out = sv(mkIte(c, toBV(x, n * 8), toBV(y, n * 8))), true) : false;
    }
    if(x.e && y.e && x.e.a == y.e.a) { out = x; return true; }
    bool rx = x.e && x.e.kind() == Z3_REAL_SORT, ry = y.e && y.e.kind() == Z3_REAL_SORT;
    if(rx || ry) {
        if((x.e && !rx) || (y.e && !ry)) return false;
        double d;
        if(isInfNan(x, n == 8, d) || isInfNan(y, n == 8, d)) return false;
        out = sv(mkIte(c, toReal(x, n == 8), toReal(y, n == 8))); return true;
    }
    if(n == 8 && ((!x.e && looksPtr(a, x.c)) || (!y.e && looksPtr(b, y.c)))) return false;
    if((x.e && x.e.kind() == Z3_FLOATING_POINT_SORT) && (y.e && y.e.kind() == Z3_FLOATING_POINT_SORT)) { out = sv(mkIte(c, x.e, y.e)); return true; }
    out = sv(mkIte(c, toBV(x, n * 8), toBV(y, n * 8)));
    return true;
}
static bool mergeVal(State& s, const E& c, const V& a, const V& b, Type* T, V& out) {
    if(isAggTy(T)) {
        if(!a.agg || !b.agg) return false;
        out = V(); out.agg = std::make_shared<std::vector<V>>();
        for(unsigned i = 0, n = aggN(T); i < n; ++i) { V x; if(!mergeVal(s, c, (*a.agg)[i], (*b.agg)[i], aggElt(T, i), x)) return false; out.agg->push_back(x); }
        return true;
    }
    if(a.raw || b.raw) return false;
    if(!a.e && !b.e && a.c == b.c) { out = a; return true; }
    if(a.e && b.e && a.e.a == b.e.a) { out = a; return true; }
    if(T->isPointerTy()) return false;
    if(T->isIntegerTy(64) && !a.e && !b.e && (looksPtr(s, a.c) || looksPtr(s, b.c))) return false;
    unsigned bits = bitsOf(T);
    if(T->isX86_FP80Ty()) return false;
    if(isRealMix(a, b)) {
        double d;
        if((a.e && a.e.kind() != Z3_REAL_SORT) || (b.e && b.e.kind() != Z3_REAL_SORT) || isInfNan(a, bits == 64, d) || isInfNan(b, bits == 64, d)) return false;
    }
    out = iteV(c, a, b, T);
    return true;
}
// merge b into a; prefix = length of the common path condition; false: leave both alone
static bool mergeInto(State& a, State& b, size_t prefix, const BasicBlock* J) {
    if(a.st.size() != b.st.size() || a.caught != b.caught || a.inputs != b.inputs || a.excs.size() != b.excs.size()) return false;
    if(a.errnoAddr != b.errnoAddr) return false;
    Frame &fa = a.st.back(), &fb = b.st.back();
    if(fa.pc != fb.pc || fa.f != fb.f || fa.allocas != fb.allocas || fa.varArea != fb.varArea) return false;
    for(size_t i = 0; i + 1 < a.st.size(); ++i) if(a.st[i].f != b.st[i].f || a.st[i].pc != b.st[i].pc) return false;
    E ca = mkBool(true), cb = mkBool(true);
    for(size_t i = prefix; i < a.pc.size(); ++i) ca = i == prefix ? a.pc[i] : mkAnd(ca, a.pc[i]);
    for(size_t i = prefix; i < b.pc.size(); ++i) cb = i == prefix ? b.pc[i] : mkAnd(cb, b.pc[i]);
    // phis of J
    std::vector<std::pair<int, V>> upd;
    for(auto& I : *J) {
        auto* ph = dyn_cast<PHINode>(&I); if(!ph) break;
        int sl = fa.f->slotOf[ph]; V o;
        if(!mergeVal(a, ca, fa.regs[sl], fb.regs[sl], ph->getType(), o)) return false;
        upd.emplace_back(sl, std::move(o));
    }
    // memory
    std::vector<std::pair<u64, std::vector<std::pair<std::pair<u64, unsigned>, V>>>> mw;
    std::vector<ObjP> add;
    auto ia = a.mem.begin(), ib = b.mem.begin();
    while(ia != a.mem.end() || ib != b.mem.end()) {
        if(ib == b.mem.end() || (ia != a.mem.end() && ia->first < ib->first)) { ++ia; continue; }
        if(ia == a.mem.end() || ib->first < ia->first) { add.push_back(ib->second); ++ib; continue; }
        const ObjP &x = ia->second, &y = ib->second;
        if(x != y) {
            if(x->size != y->size || x->freed != y->freed || x->heap != y->heap) return false;
            std::vector<std::pair<std::pair<u64, unsigned>, V>> ws;
            u64 n = x->size;
            std::set<u64> words;
            for(u64 o = 0; o < n; ++o) if(x->conc[o] != y->conc[o] && !(x->symb.count(o) && y->symb.count(o))) words.insert(o & ~7ull);
            for(auto& kv : x->symb) { auto jt = y->symb.find(kv.first); if(jt == y->symb.end() || jt->second.e.a != kv.second.e.a || jt->second.idx != kv.second.idx) words.insert(kv.first & ~7ull); }
            for(auto& kv : y->symb) if(!x->symb.count(kv.first)) words.insert(kv.first & ~7ull);
            for(u64 w : words) {
                auto differs = [&](u64 o) {
                    auto p = x->symb.find(o), q = y->symb.find(o);
                    bool hp = p != x->symb.end(), hq = q != y->symb.end();
                    if(hp != hq) return true;
                    if(hp) return p->second.e.a != q->second.e.a || p->second.idx != q->second.idx;
                    return x->conc[o] != y->conc[o];
                };
                u64 end = std::min<u64>(w + 8, n);
                unsigned gran = 8;
                auto whole = [&](const MemObj& m, u64 o, unsigned k) { auto p = m.symb.find(o); return p != m.symb.end() && p->second.idx == 0 && p->second.n == k; };
                if(end - w == 8 && (whole(*x, w, 8) || whole(*y, w, 8))) gran = 8;
                else {
                    bool lo = false, hi = false;
                    for(u64 o = w; o < end; ++o) if(differs(o)) (o < w + 4 ? lo : hi) = true;
                    bool ptr = false;
                    if(end - w == 8) { V p = readObj(*x, w, 8), q = readObj(*y, w, 8); if((!p.e && !p.raw && looksPtr(a, p.c)) || (!q.e && !q.raw && looksPtr(b, q.c))) ptr = true; }
                    if(ptr) gran = 8; else gran = 4;
                }
                for(u64 o = w; o < end; o += gran) {
                    unsigned g = gran;
                    bool d = false; for(u64 k = o; k < std::min<u64>(o + g, end); ++k) d |= differs(k);
                    if(!d) continue;
                    bool bytes = o + g > end;
                    if(!bytes && g == 4 && !whole(*x, o, 4) && !whole(*y, o, 4)) {
                        // single byte differences stay bytes
                        unsigned nd = 0; for(u64 k = o; k < o + 4; ++k) nd += differs(k);
                        if(nd == 1 && (whole(*x, o, 1) || whole(*y, o, 1) || !optReal)) {
                            bool other = false; for(u64 k = o; k < o + 4; ++k) { auto p = x->symb.find(k); if(p != x->symb.end() && p->second.n != 1) other = true; p = y->symb.find(k); if(p != y->symb.end() && p->second.n != 1) other = true; }
                            if(!other) bytes = true;
                        }
                    }
                    if(bytes) { for(u64 k = o; k < std::min<u64>(o + g, end); ++k) if(differs(k)) { V v; if(!mergeWord(a, b, ca, *x, *y, k, 1, v)) return false; ws.push_back({{k, 1}, v}); } }
                    else { V v; if(!mergeWord(a, b, ca, *x, *y, o, g, v)) return false; ws.push_back({{o, g}, v}); }
                }
            }
            if(!ws.empty()) mw.emplace_back(ia->first, std::move(ws));
        }
        ++ia; ++ib;
    }
    // objects only b has must not overlap objects of a
    for(auto& o : add) {
        auto it = a.mem.upper_bound(o->base + o->size);
        if(it != a.mem.begin()) { --it; if(it->second->base + it->second->size >= o->base) return false; }
    }
    // commit
    for(auto& o : add) a.mem[o->base] = o;
    for(auto& m : mw) {
        auto& sp = a.mem[m.first];
        sp = std::make_shared<MemObj>(*sp);
        for(auto& w : m.second) writeObj(*sp, w.first.first, w.first.second, w.second);
    }
    for(auto& u : upd) fa.regs[u.first] = std::move(u.second);
    a.pc.resize(prefix);
    E d = simp(mkOr(ca, cb));
    if(Z3_get_bool_value(Z, d.a) != Z3_L_TRUE) a.pc.push_back(d);
    for(auto it = a.conc.begin(); it != a.conc.end();) { auto jt = b.conc.find(it->first); if(jt == b.conc.end() || jt->second != it->second) it = a.conc.erase(it); else ++it; }
    { size_t i = 0; while(i < a.keep.size() && i < b.keep.size() && a.keep[i].a == b.keep[i].a) ++i; for(; i < b.keep.size(); ++i) a.keep.push_back(b.keep[i]); }
    for(auto& k : b.enumN) { auto& x = a.enumN[k.first]; x = std::max(x, k.second); }
    a.heapTop = std::max(a.heapTop, b.heapTop); a.stackTop = std::max(a.stackTop, b.stackTop);
    a.ninst = std::max(a.ninst, b.ninst); a.depth = std::min(a.depth, b.depth);
    a.mru.reset();
    S.merges++;
    return true;
}
static void step(State& s);
static unsigned regionNest = 0;
// sides: states just after the branch (already jumped).  Result: s continues; others are pushed to work.
static void runRegion(State& s, std::vector<StateP> sides, const BasicBlock* J, size_t prefix) {
    size_t depth = sides[0]->st.size();
    KFunc* kf = sides[0]->st.back().f;
    unsigned stopPc = kf->bbStart[J];
    while(isa<PHINode>(kf->insts[stopPc].I)) ++stopPc;
    std::vector<StateP> saved; saved.swap(work);
    regionNest++;
    std::vector<StateP> arrived, escaped;
    u64 start = sides[0]->ninst;
    for(size_t i = sides.size(); i-- > 0;) work.push_back(sides[i]);
    sides.clear();
    unsigned seenStates = 0; u64 r0 = g_restrict;
    while(!work.empty()) {
        StateP p = work.back(); work.pop_back();
        if(++seenStates > optMergeStates) { escaped.push_back(p); continue; }
        while(true) {
            if(p->dead || p->st.empty()) break;
            if(p->st.size() == depth && p->st.back().pc == stopPc && p->st.back().f == kf) break;
            if(p->st.size() < depth || p->ninst - start > optMergeDyn) break;
            step(*p);
            if(g_z3err) fatal("z3 error");
        }
        if(p->dead || p->st.empty()) g_restrict++;
        if(p->dead) continue;
        if(p->st.size() == depth && p->st.back().pc == stopPc && p->st.back().f == kf) {
            bool done = false;
            for(auto& q : arrived) if(mergeInto(*q, *p, prefix, J)) { done = true; break; }
            if(!done) arrived.push_back(p);
        } else escaped.push_back(p);
        if(now() - t0 > optTime) { for(auto& w : work) escaped.push_back(w); work.clear(); }
    }
    regionNest--;
    work.swap(saved);
    // every way through the region was followed and merged: nothing was learnt
    if(arrived.size() == 1 && escaped.empty() && g_restrict == r0) arrived[0]->pc.resize(std::min(prefix, arrived[0]->pc.size()));
    for(auto& e : escaped) arrived.push_back(e);
    if(arrived.empty()) { s.dead = true; return; }
    for(size_t i = 1; i < arrived.size(); ++i) work.push_back(arrived[i]);
    s = *arrived[0];
}
// ---------------------------------------------------------------- branches
static void doBranch(State& s, const V& c, const BasicBlock* t, const BasicBlock* e) {
    if(!c.e) { jumpTo(s, (c.c & 1) ? t : e); return; }
    E b = simp(toBool(c));
    Z3_lbool lb = Z3_get_bool_value(Z, b.a);
    if(lb != Z3_L_UNDEF) { jumpTo(s, lb == Z3_L_TRUE ? t : e); return; }
    bool v = evalTrue(s.model, b);
    E mine = v ? b : mkNot(b), other = v ? mkNot(b) : b;
    if(!v && !evalTrue(s.model, mine)) {
        // the model does not decide it (partial model): ask
        QRes q = query(s, mine);
        if(q.r == UNKNOWN) { noteIncomplete("solver unknown at branch " + whereAmI(s)); s.dead = true; return; }
        if(q.r == UNSAT) { QRes q2 = query(s, other); if(q2.r != SAT) { noteIncomplete("solver unknown at branch"); s.dead = true; return; } assumeWith(s, other, q2.m); jumpTo(s, v ? e : t); return; }
        s.model = q.m;
    }
    QRes q = query(s, other);
    if(q.r == UNKNOWN) { noteIncomplete("solver unknown at branch " + whereAmI(s)); }
    if(q.r == SAT) {
        auto n = std::make_shared<State>(s);
        n->depth++; countFork(s);
        const BasicBlock* B = s.st.back().f->insts[s.st.back().pc].I->getParent();
        size_t prefix = s.pc.size();
        assumeWith(*n, other, q.m);
        jumpTo(*n, v ? e : t);
        assumeWith(s, mine, s.model);
        if(optMerge && regionNest < optMergeNest) {
            const RegionInfo& ri = regionOf(B);
            if(ri.ok) {
                auto m = std::make_shared<State>(s);
                jumpTo(*m, v ? t : e);
                std::vector<StateP> sides{m, n};
                m.reset(); n.reset();
                runRegion(s, std::move(sides), ri.J, prefix);
                return;
            }
        }
        work.push_back(n);
    } else if(q.r == UNKNOWN) { g_restrict++; assumeWith(s, mine, s.model); }
    jumpTo(s, v ? t : e);
}

// ---------------------------------------------------------------- step
static bool divCheck(State& s, unsigned op, const V& a, const V& b, unsigned bits) {
    E z;
    if(!b.e) { if(maskTo(b.c, bits) == 0) { violation(s, "trap", "integer division by zero", s.model); s.dead = true; return false; } }
    else {
        z = mkEq(toBV(b, bits), bvc(0, bits));
        QRes q = query(s, z);
        if(q.r == SAT) { violation(s, "trap", "integer division by zero", q.m); s.dead = true; return false; }
        if(q.r == UNKNOWN) noteIncomplete("solver unknown on division check");
    }
    if((op == Instruction::SDiv || op == Instruction::SRem) && bits >= 32) {
        V m1 = icmp(CmpInst::ICMP_EQ, b, cv(maskTo(~0ull, bits)), bits), mn = icmp(CmpInst::ICMP_EQ, a, cv(1ull << (bits - 1)), bits);
        V both = binInt(Instruction::And, m1, mn, 1);
        if(both.e || both.c) {
            QRes q = query(s, toBool(both));
            if(q.r == SAT) { violation(s, "trap", "signed division overflow", q.m); s.dead = true; return false; }
        }
    }
    return true;
}
static bool isDivOp(unsigned o) { return o == Instruction::UDiv || o == Instruction::SDiv || o == Instruction::URem || o == Instruction::SRem; }
static V lshrRaw(const V& v, u64 sh, unsigned bits) {
    V o; o.raw = std::make_shared<std::vector<RawB>>();
    unsigned k = sh / 8, n = bits / 8;
    for(unsigned i = 0; i < n; ++i) { if(i + k < n) o.raw->push_back((*v.raw)[i + k]); else { RawB b; b.c = 0; b.idx = b.n = 0; o.raw->push_back(b); } }
    return o;
}
static void step(State& s) {
    curSt = &s;
    Frame& f = s.st.back();
    KInst& ki = f.f->insts[f.pc];
    Instruction* I = ki.I;
    s.ninst++; S.insts++;
    auto op = [&](unsigned i) -> const V& { return opv(f, ki.ops[i]); };
    auto setAdv = [&](V v) { f.regs[ki.dest] = std::move(v); f.pc++; };
    auto fits = [&](const V& v) { return v; };
    (void)fits;
    switch(I->getOpcode()) {
        case Instruction::Ret: {
            V r; bool has = I->getNumOperands() > 0;
            if(has) r = op(0);
            popFrame(s);
            if(s.st.empty()) { return; }
            afterCall(s, r);
            return;
        }
        case Instruction::Br: {
            auto* b = cast<BranchInst>(I);
            if(b->isUnconditional()) { jumpTo(s, b->getSuccessor(0)); return; }
            V c = op(0);
            doBranch(s, c, b->getSuccessor(0), b->getSuccessor(1));
            return;
        }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(I);
            V c = op(0); unsigned w = bitsOf(sw->getCondition()->getType());
            if(!c.e) {
                u64 v = maskTo(c.c, w);
                for(auto& cs : sw->cases()) if(cs.getCaseValue()->getZExtValue() == v) { jumpTo(s, cs.getCaseSuccessor()); return; }
                jumpTo(s, sw->getDefaultDest()); return;
            }
            // group cases by successor
            E x = toBV(c, w);
            std::vector<std::pair<const BasicBlock*, E>> groups;
            E dflt = mkBool(true);
            for(auto& cs : sw->cases()) {
                E eq = mkEq(x, bvc(cs.getCaseValue()->getZExtValue(), w));
                dflt = mkAnd(dflt, mkNot(eq));
                bool done = false;
                for(auto& g : groups) if(g.first == cs.getCaseSuccessor()) { g.second = mkOr(g.second, eq); done = true; break; }
                if(!done) groups.emplace_back(cs.getCaseSuccessor(), eq);
            }
            { bool done = false; for(auto& g : groups) if(g.first == sw->getDefaultDest()) { g.second = mkOr(g.second, dflt); done = true; } if(!done) groups.emplace_back(sw->getDefaultDest(), dflt); }
            std::vector<std::pair<const BasicBlock*, std::pair<E, std::shared_ptr<ModelP>>>> feas;
            for(auto& g : groups) {
                QRes q = query(s, g.second);
                if(q.r == UNKNOWN) noteIncomplete("solver unknown at switch");
                if(q.r == SAT) feas.emplace_back(g.first, std::make_pair(g.second, q.m));
            }
            if(feas.empty()) { s.dead = true; return; }
            if(optMerge && feas.size() > 1 && regionNest < optMergeNest) {
                const RegionInfo& ri = regionOf(sw->getParent());
                if(ri.ok) {
                    size_t prefix = s.pc.size();
                    std::vector<StateP> sides;
                    for(size_t i = 0; i < feas.size(); ++i) {
                        auto n = std::make_shared<State>(s); n->depth++; countFork(s);
                        assumeWith(*n, feas[i].second.first, feas[i].second.second);
                        jumpTo(*n, feas[i].first);
                        sides.push_back(n);
                    }
                    runRegion(s, std::move(sides), ri.J, prefix);
                    return;
                }
            }
            for(size_t i = 1; i < feas.size(); ++i) {
                auto n = std::make_shared<State>(s); n->depth++; countFork(s);
                assumeWith(*n, feas[i].second.first, feas[i].second.second);
                jumpTo(*n, feas[i].first);
                work.push_back(n);
            }
            assumeWith(s, feas[0].second.first, feas[0].second.second);
            jumpTo(s, feas[0].first);
            return;
        }
        case Instruction::IndirectBr: fatal("indirectbr");
        case Instruction::Unreachable: violation(s, "trap", "unreachable code reached (undefined behaviour)", s.model); s.dead = true; return;
        case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I), ki); return;
        case Instruction::Resume: {
            V v = op(0);
            u64 exo = (*v.agg)[0].c;
            popFrame(s);
            if(s.st.empty()) fatal("resume past entry");
            unwindExc(s, exo);
            return;
        }
        case Instruction::LandingPad: fatal("landingpad executed directly");
        case Instruction::Alloca: {
            auto* al = cast<AllocaInst>(I);
            u64 n = 1;
            if(al->isArrayAllocation()) { V c = op(0); if(!concretize(s, c, bitsOf(al->getArraySize()->getType()), n)) { s.dead = true; return; } }
            u64 sz = DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue() * n;
            if(sz > (1u << 26)) { violation(s, "memory", "stack allocation of more than 64 MiB", s.model); s.dead = true; return; }
            u64 b = allocObj(s, sz, al->hasName() ? "stack '" + al->getName().str() + "'" : "stack", false);
            f.allocas.push_back(b);
            setAdv(cv(b)); return;
        }
        case Instruction::Load: { V o; V p = op(0); if(!loadTy(s, p, I->getType(), o)) return; setAdv(std::move(o)); return; }
        case Instruction::Store: { V v = op(0), p = op(1); if(!storeTy(s, p, I->getOperand(0)->getType(), v)) return; f.pc++; return; }
        case Instruction::GetElementPtr: {
            auto* g = cast<GetElementPtrInst>(I);
            if(g->getType()->isVectorTy()) fatal("vector gep");
            V p = op(0);
            u64 off = 0; E so;
            unsigned oi = 1;
            for(auto it = gep_type_begin(g); it != gep_type_end(g); ++it, ++oi) {
                V ix = op(oi);
                if(StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset((unsigned)ix.c); continue; }
                u64 es = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
                unsigned w = bitsOf(g->getOperand(oi)->getType());
                if(!ix.e) { off += (u64)(sext(ix.c, w) * (int64_t)es); continue; }
                E x = toBV(ix, w); if(w < 64) x = E(Z3_mk_sign_ext(Z, 64 - w, x.a));
                if(es != 1) x = E(Z3_mk_bvmul(Z, x.a, bvc(es, 64).a));
                so = so ? E(Z3_mk_bvadd(Z, so.a, x.a)) : x;
            }
            if(!so) { setAdv(ptrAdd(p, (int64_t)off)); return; }
            E base = toBV(p, 64);
            if(off) base = E(Z3_mk_bvadd(Z, base.a, bvc(off, 64).a));
            setAdv(bvV(simp(E(Z3_mk_bvadd(Z, base.a, so.a)))));
            return;
        }
        case Instruction::Select: {
            V c = op(0); V a = op(1), b = op(2); Type* T = I->getType();
            if(c.agg) {
                V r; r.agg = std::make_shared<std::vector<V>>();
                for(unsigned i = 0, n = aggN(T); i < n; ++i) { V ci = (*c.agg)[i]; if(!ci.e) r.agg->push_back(ci.c & 1 ? (*a.agg)[i] : (*b.agg)[i]); else r.agg->push_back(iteV(toBool(ci), (*a.agg)[i], (*b.agg)[i], aggElt(T, i))); }
                setAdv(r); return;
            }
            if(!c.e) { setAdv(c.c & 1 ? a : b); return; }
            E e = simp(toBool(c)); Z3_lbool lb = Z3_get_bool_value(Z, e.a);
            if(lb != Z3_L_UNDEF) { setAdv(lb == Z3_L_TRUE ? a : b); return; }
            bool fork = T->isPointerTy() || a.raw || b.raw;
            if(!fork && !isAggTy(T) && T->isFloatingPointTy() && optReal) { double d; bool dd = isDblTy(T); if((!a.e && isInfNan(a, dd, d)) || (!b.e && isInfNan(b, dd, d))) fork = true; }
            if(fork) {
                // pointers (and values without a common sort): fork rather than build an ite
                bool v = evalTrue(s.model, e);
                E mine = v ? e : mkNot(e);
                if(!v && !evalTrue(s.model, mine)) { noteIncomplete("model does not decide select"); s.dead = true; return; }
                QRes q = query(s, v ? mkNot(e) : e);
                if(q.r == UNKNOWN) noteIncomplete("solver unknown at select");
                if(q.r == SAT) { forkInto(s, v ? mkNot(e) : e, q.m); assumeWith(s, mine, s.model); }
                setAdv(v ? a : b); return;
            }
            setAdv(iteV(e, a, b, T)); return;
        }
        case Instruction::ICmp: {
            Type* T = I->getOperand(0)->getType(); auto p = cast<ICmpInst>(I)->getPredicate();
            if(isAggTy(T)) { V r; r.agg = std::make_shared<std::vector<V>>(); for(unsigned i = 0, n = aggN(T); i < n; ++i) r.agg->push_back(icmp(p, (*op(0).agg)[i], (*op(1).agg)[i], bitsOf(aggElt(T, i)))); setAdv(r); return; }
            setAdv(icmp(p, op(0), op(1), bitsOf(T))); return;
        }
        case Instruction::FCmp: {
            Type* T = I->getOperand(0)->getType(); auto p = cast<FCmpInst>(I)->getPredicate();
            if(isAggTy(T)) { V r; r.agg = std::make_shared<std::vector<V>>(); for(unsigned i = 0, n = aggN(T); i < n; ++i) r.agg->push_back(fcmp(p, (*op(0).agg)[i], (*op(1).agg)[i], isDblTy(aggElt(T, i)))); setAdv(r); return; }
            setAdv(fcmp(p, op(0), op(1), isDblTy(T))); return;
        }
        case Instruction::FNeg: {
            Type* T = I->getType();
            if(isAggTy(T)) { V r; r.agg = std::make_shared<std::vector<V>>(); for(auto& x : *op(0).agg) r.agg->push_back(fneg(x, isDblTy(aggElt(T, 0)))); setAdv(r); return; }
            setAdv(fneg(op(0), isDblTy(T))); return;
        }
        case Instruction::ExtractValue: { V v = op(0); for(unsigned ix : cast<ExtractValueInst>(I)->indices()) { V w = (*v.agg)[ix]; v = w; } setAdv(v); return; }
        case Instruction::InsertValue: {
            V v = op(0); auto idx = cast<InsertValueInst>(I)->getIndices();
            std::function<V(const V&, unsigned)> ins = [&](const V& x, unsigned d) -> V {
                if(d == idx.size()) return op(1);
                V r; r.agg = std::make_shared<std::vector<V>>(*x.agg); (*r.agg)[idx[d]] = ins((*x.agg)[idx[d]], d + 1); return r; };
            setAdv(ins(v, 0)); return;
        }
        case Instruction::ExtractElement: { V ix = op(1); u64 i; if(!concretize(s, ix, 64 < bitsOf(I->getOperand(1)->getType()) ? 64 : bitsOf(I->getOperand(1)->getType()), i)) { s.dead = true; return; } V v = (*op(0).agg).at(i); setAdv(v); return; }
        case Instruction::InsertElement: { V ix = op(2); u64 i; if(!concretize(s, ix, bitsOf(I->getOperand(2)->getType()), i)) { s.dead = true; return; } V r; r.agg = std::make_shared<std::vector<V>>(*op(0).agg); r.agg->at(i) = op(1); setAdv(r); return; }
        case Instruction::ShuffleVector: {
            auto* sh = cast<ShuffleVectorInst>(I); V a = op(0), b = op(1); unsigned n = a.agg->size();
            V r; r.agg = std::make_shared<std::vector<V>>();
            for(int m : sh->getShuffleMask()) r.agg->push_back(m < 0 ? zeroOf(aggElt(I->getType(), 0)) : m < (int)n ? (*a.agg)[m] : (*b.agg)[m - n]);
            setAdv(r); return;
        }
        case Instruction::Freeze: setAdv(op(0)); return;
        case Instruction::Fence: f.pc++; return;
        case Instruction::AtomicRMW: {
            auto* rm = cast<AtomicRMWInst>(I); V p = op(0), x = op(1), old; Type* T = rm->getType();
            if(!loadTy(s, p, T, old)) return;
            V nv; unsigned w = bitsOf(T);
            switch(rm->getOperation()) { case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: nv = binInt(Instruction::Add, old, x, w); break; case AtomicRMWInst::Sub: nv = binInt(Instruction::Sub, old, x, w); break; case AtomicRMWInst::And: nv = binInt(Instruction::And, old, x, w); break; case AtomicRMWInst::Or: nv = binInt(Instruction::Or, old, x, w); break; default: fatal("atomicrmw"); }
            if(!storeTy(s, p, T, nv)) return;
            setAdv(old); return;
        }
        case Instruction::AtomicCmpXchg: {
            auto* cx = cast<AtomicCmpXchgInst>(I); V p = op(0), cmp = op(1), nw = op(2), old; Type* T = cx->getCompareOperand()->getType();
            if(!loadTy(s, p, T, old)) return;
            V eq = icmp(CmpInst::ICMP_EQ, old, cmp, bitsOf(T));
            if(eq.e) fatal("symbolic cmpxchg");
            if(eq.c && !storeTy(s, p, T, nw)) return;
            V r; r.agg = std::make_shared<std::vector<V>>(); r.agg->push_back(old); r.agg->push_back(eq); setAdv(r); return;
        }
        case Instruction::PHI: fatal("phi executed directly");
        default: break;
    }
    if(I->isCast()) { V o; V v = op(0); if(!castOp(s, I->getOpcode(), v, I->getOperand(0)->getType(), I->getType(), o)) return; f.regs[ki.dest] = o; s.st.back().pc++; return; }
    if(I->isBinaryOp()) {
        Type* T = I->getType(); unsigned o = I->getOpcode();
        bool fp = T->isFPOrFPVectorTy();
        auto one = [&](const V& a, const V& b, Type* t, V& r) -> bool {
            if(fp) {
                if(optReal && o == Instruction::FDiv && b.e && b.e.kind() == Z3_REAL_SORT) {
                    // x/0 has no real value: the zero case is explored separately only as a reported event
                    E z = mkEq(b.e, realOf(0)); QRes q = query(s, z);
                    if(q.r == UNKNOWN) noteIncomplete("solver unknown on real division by zero");
                    if(q.r == SAT) { g_restrict++; violation(s, "math", "floating point division by zero", q.m); QRes q2 = query(s, mkNot(z)); if(q2.r != SAT) { s.dead = true; return false; } assumeWith(s, mkNot(z), q2.m); }
                }
                r = binFP(o, a, b, isDblTy(t)); return true;
            }
            if(isDivOp(o) && !divCheck(s, o, a, b, bitsOf(t))) return false;
            if(a.raw && o == Instruction::LShr && !b.e && b.c % 8 == 0) { r = lshrRaw(a, b.c, bitsOf(t)); return true; }
            r = binInt(o, a, b, bitsOf(t)); return true;
        };
        V r;
        if(isAggTy(T)) {
            r.agg = std::make_shared<std::vector<V>>();
            for(unsigned i = 0, n = aggN(T); i < n; ++i) { V x; V a = (*op(0).agg)[i], b = (*op(1).agg)[i]; if(!one(a, b, aggElt(T, i), x)) return; r.agg->push_back(x); }
        } else { V a = op(0), b = op(1); if(!one(a, b, T, r)) return; }
        setAdv(std::move(r)); return;
    }
    std::string str; raw_string_ostream os(str); I->print(os);
    fatal("unsupported instruction " + os.str());
}

// ---------------------------------------------------------------- driver
static void finish(int code) {
    static bool done = false;
    if(done) _exit(code);
    done = true;
    std::string o = "{\n";
    const char* st = !viols.empty() ? "violation" : !incomplete.empty() ? "incomplete" : "ok";
    o += "\"status\": \"" + std::string(st) + "\",\n\"incomplete\": \"" + jesc(incomplete) + "\",\n\"violations\": [";
    for(size_t i = 0; i < viols.size(); ++i) {
        auto& v = viols[i];
        if(i) o += ",";
        o += "\n {\"kind\": \"" + jesc(v.kind) + "\", \"msg\": \"" + jesc(v.msg) + "\", \"where\": \"" + jesc(v.where) + "\", \"inputs\": [";
        for(size_t j = 0; j < v.inputs.size(); ++j) o += (j ? "," : "") + ("[\"" + jesc(std::get<0>(v.inputs[j])) + "\"," + std::to_string(std::get<1>(v.inputs[j])) + ",\"" + std::get<2>(v.inputs[j]) + "\"]");
        o += "], \"notes\": [";
        for(size_t j = 0; j < v.notes.size(); ++j) o += (j ? "," : "") + ("\"" + jesc(v.notes[j]) + "\"");
        o += "]}";
    }
    o += "],\n\"reach\": {";
    { bool f = true; for(auto& r : reachCount) { o += (f ? "" : ",") + ("\"" + jesc(r.first) + "\":" + std::to_string(r.second)); f = false; } }
    o += "},\n\"asserts\": {";
    { bool f = true; for(auto& r : assertCount) { o += (f ? "" : ",") + ("\"" + jesc(r.first) + "\":" + std::to_string(r.second)); f = false; } }
    o += "},\n\"functions\": [";
    { bool f = true; for(auto& n : usedFuncs) {
        Function* F = M ? M->getFunction(n) : nullptr; std::string file;
        if(F) if(auto* sp = F->getSubprogram()) { file = sp->getFilename().str(); if(!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file; }
        if(file.find("/repo/") == std::string::npos) continue;
        o += (f ? "" : ",") + ("\n\"" + jesc(demangle(n)) + " [" + jesc(file) + "]\""); f = false; } }
    o += "],\n\"assumptions\": [";
    { bool f = true; for(auto& n : assumeNotes) { o += (f ? "" : ",") + ("\"" + jesc(n) + "\""); f = false; } }
    if(optForks) { std::vector<std::pair<long, std::string>> v; for(auto& x : forkLoc) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for(size_t i = 0; i < v.size() && i < 25; ++i) fprintf(stderr, "FORK %8ld %s\n", v[i].first, v[i].second.c_str()); }
    char b[1024];
    snprintf(b, sizeof b, "],\n\"stats\": {\"paths\": %llu, \"paths_assumed_away\": %llu, \"forks\": %llu, \"merges\": %llu, \"queries\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"asserts\": %llu, \"assert_queries\": %llu, \"insts\": %llu, \"external\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f},\n",
        (unsigned long long)S.paths, (unsigned long long)S.pathsAssumed, (unsigned long long)S.forks, (unsigned long long)S.merges, (unsigned long long)S.queries, (unsigned long long)S.cacheHits, (unsigned long long)S.modelHits, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unknown, (unsigned long long)S.asserts, (unsigned long long)S.assertQueries, (unsigned long long)S.insts, (unsigned long long)S.ext, S.solver, now() - t0);
    o += b;
    o += "\"sample\": \"" + jesc(sampleModel) + "\"\n}\n";
    if(!optOut.empty()) { FILE* f = fopen(optOut.c_str(), "w"); if(f) { fputs(o.c_str(), f); fclose(f); } }
    else fputs(o.c_str(), stdout);
    fflush(stdout); fflush(stderr);
    _exit(code);
}
static void onAlarm(int) { if(incomplete.empty()) incomplete = "hard time limit"; finish(viols.empty() ? 2 : 1); }

static void runState(StateP sp, bool init) {
    State& s = *sp;
    unsigned tick = 0;
    while(!s.dead && !s.st.empty()) {
        step(s);
        if(g_z3err) fatal("z3 error");
        if((++tick & 1023) == 0 && now() - t0 > optTime) { noteIncomplete("time limit; " + std::to_string(work.size()) + " states left; at " + whereAmI(s)); finish(viols.empty() ? 2 : 1); }
        if(s.ninst > optMaxInst) {
            if(optLimitIsViolation) violation(s, "limit", "no termination within " + std::to_string(optMaxInst) + " instructions", s.model);
            else noteIncomplete("instruction limit at " + whereAmI(s));
            s.dead = true;
        }
    }
    if(!s.dead && !init) S.paths++;
}
static void callTop(State& s, Function* F) {
    KFunc* k = prepare(F);
    Frame f; f.f = k; f.regs.resize(k->nslots);
    s.st.push_back(std::move(f));
}
int main(int argc, char** argv) {
    std::string bc;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? argv[i] + n : nullptr; };
        const char* v;
        if(a == "--fp=real") optReal = true;
        else if((v = val("--time="))) optTime = atof(v);
        else if((v = val("--max-inst="))) optMaxInst = strtoull(v, 0, 10);
        else if((v = val("--query-ms="))) optQueryMs = atoi(v);
        else if((v = val("--max-enum="))) optMaxEnum = atoi(v);
        else if((v = val("--max-viol="))) optMaxViol = atoi(v);
        else if(a == "--limit-is-violation") optLimitIsViolation = true;
        else if((v = val("--out="))) optOut = v;
        else if((v = val("--entry="))) optEntry = v;
        else if((v = val("--case="))) optCase = atoi(v);
        else if((v = val("--tier="))) optTier = atoi(v);
        else if((v = val("--max-depth="))) optMaxDepth = atoi(v);
        else if((v = val("--dump="))) optDump = v;
        else if((v = val("--fast="))) optFast = atoi(v);
        else if(a == "--no-merge") optMerge = false;
        else if(a == "--merge") optMerge = true;
        else if((v = val("--merge-dyn="))) optMergeDyn = atoi(v);
        else if((v = val("--merge-static="))) optMergeStatic = atoi(v);
        else if(a == "--merge-loops") optMergeLoops = true;
        else if(a == "-v") optVerbose = true;
        else bc = a;
    }
    t0 = now();
    signal(SIGALRM, onAlarm); alarm((unsigned)optTime + 30);
    Z3_global_param_set("smt.random_seed", "1");
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    Z = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(Z, z3err);
    CTX = new LLVMContext();
    SMDiagnostic err;
    auto mod = parseIRFile(bc, err, *CTX);
    if(!mod) { err.print("vsym", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    StateP init = std::make_shared<State>();
    init->model = std::make_shared<ModelP>(Z3_mk_model(Z));
    initBuiltins();
    // addresses
    u64 fa = 0x400000;
    for(auto& F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
    u64 ga = 0x10000000;
    for(auto& G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64;
        if(G.isDeclaration()) sz = std::max<u64>(sz, 64);
        ga = (ga + 63) & ~63ull;
        gaddr[&G] = ga;
        auto o = std::make_shared<MemObj>(); o->base = ga; o->size = sz; o->name = G.getName().str(); o->conc.assign(sz, 0);
        if(o->name.size() > 100) o->name.resize(100);
        if(G.isDeclaration()) { StringRef n = G.getName(); o->undef = n.contains("Aqsis") || n.starts_with("Ri") || n.starts_with("g"); if(n.starts_with("_ZT")) o->undef = false; }
        init->mem[ga] = o;
        ga += sz + 32;
    }
    auto vt = [&](const char* n) -> u64 { auto* g = M->getNamedGlobal(n); return g ? gaddr[g] : 0; };
    vtClass = vt("_ZTVN10__cxxabiv117__class_type_infoE"); vtSi = vt("_ZTVN10__cxxabiv120__si_class_type_infoE"); vtVmi = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    for(auto& G : M->globals()) if(G.hasInitializer()) initMem(*init, gaddr[&G], G.getInitializer());
    for(auto& G : M->globals()) if(G.isConstant()) {
        u64 a = gaddr[&G]; ObjP o = init->mem[a]; o->ro = true; roGlobals[a] = o; init->mem.erase(a);
    }
    // global constructors
    if(auto* gc = M->getNamedGlobal("llvm.global_ctors")) {
        std::vector<std::pair<u64, Function*>> cs;
        if(auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
            for(unsigned i = 0; i < arr->getNumOperands(); ++i) { auto* st = cast<ConstantStruct>(arr->getOperand(i)); if(auto* fn = dyn_cast<Function>(st->getOperand(1))) cs.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for(auto& c : cs) {
            callTop(*init, c.second); runState(init, true);
            if(init->dead || !work.empty()) { if(incomplete.empty()) incomplete = "static initialiser did not finish: " + c.second->getName().str(); finish(viols.empty() ? 2 : 1); }
        }
    }
    init->ninst = 0;
    usedFuncs.clear();
    for(auto& k : kfuncs) if(k.second) k.second->prepared = k.second->prepared;
    Function* H = M->getFunction(optEntry);
    if(!H || H->isDeclaration()) fatal("no entry " + optEntry);
    callTop(*init, H);
    work.push_back(init); init.reset();
    while(!work.empty()) {
        StateP s = work.back(); work.pop_back();
        runState(s, false);
        if(now() - t0 > optTime) { if(!work.empty()) noteIncomplete("time limit; " + std::to_string(work.size()) + " states left"); break; }
    }
    finish(!viols.empty() ? 1 : !incomplete.empty() ? 2 : 0);
}
