// ---------------------------------------------------------------- interpreter
static Val ev(State& S, Frame& f, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return cval(c);
    auto it = f.fi->idx.find(v); if (it == f.fi->idx.end()) { unsup("operand"); } return f.regs[it->second];
}
static void setReg(Frame& f, const Instruction* I, Val v) { f.regs[f.fi->idx.find(I)->second] = std::move(v); }
static void jump(State& S, Frame& f, BasicBlock* to) {
    f.prev = f.bb; f.bb = to; f.pc = to->begin();
    std::vector<std::pair<const Instruction*, Val>> ph;
    for (auto& I : *to) { auto* p = dyn_cast<PHINode>(&I); if (!p) break; ph.push_back({p, ev(S, f, p->getIncomingValueForBlock(f.prev))}); }
    for (auto& x : ph) { setReg(f, x.first, std::move(x.second)); ++f.pc; }
}
static void killAllocas(State& S, Frame& f) { for (u64 a : f.allocas) { auto it = S.mem.find(a); if (it != S.mem.end()) { auto o = std::make_shared<MemObj>(); o->base = it->second->base; o->size = it->second->size; o->kind = 's'; o->alive = false; it->second = o; } } if (f.vaSave) S.mem.erase(f.vaSave); }
// keep the table of dead objects from growing without bound (an access to a dropped one is still an access outside of every object)
static void dropDead(State& S) { if (S.mem.size() < S.sweepAt) return; for (auto it = S.mem.begin(); it != S.mem.end();) { if (!it->second->alive) it = S.mem.erase(it); else ++it; } S.sweepAt = std::max<u64>(20000, 2 * S.mem.size()); }

static void branch(State& S, Z3_ast cond, std::function<void(State&, bool)> go) {
    // pick the side the current model takes, fork the other one when feasible
    anyModel(S);
    bool known = false, side = hasUF(cond) ? false : evalTrue(S.model, cond, &known);
    Z3_ast nc = Z3_simplify(C, Z3_mk_not(C, cond));
    if (!known) {
        Z3_model m1 = nullptr, m2 = nullptr; int r1 = check(S, cond, &m1), r2 = check(S, nc, &m2);
        if (r1 == 0 || r2 == 0) incomplete.push_back("solver gave no answer for a branch at " + locOf(S));
        if (r1 == 1 && r2 == 1) { StateP o = cloneState(S); o->pc.push_back(nc); o->model = m2; go(*o, false); work.push_back(std::move(o)); S.pc.push_back(cond); S.model = m1; go(S, true); return; }
        if (r1 == 1) { if (r2 == 0) S.pc.push_back(cond); S.model = m1; go(S, true); return; }
        if (r2 == 1) { if (r1 == 0) S.pc.push_back(nc); S.model = m2; go(S, false); return; }
        throw PathEnd();
    }
    Z3_model m2 = nullptr; int r = check(S, side ? nc : cond, &m2);
    if (r == 0) incomplete.push_back("solver gave no answer for a branch at " + locOf(S));
    if (r == 1) { StateP o = cloneState(S); o->pc.push_back(side ? nc : cond); o->model = m2; go(*o, !side); work.push_back(std::move(o)); }
    if (r != -1) S.pc.push_back(side ? cond : nc);
    go(S, side);
}

// ---- exceptions
static u64 tiBase(u64 ti, std::vector<u64>& bases) {
    // typeinfo object -> list of base typeinfo addresses, from the initializer
    static std::map<u64, std::vector<u64>> cache; auto it = cache.find(ti); if (it != cache.end()) { bases = it->second; return 0; }
    for (auto& kv : gaddr) if (kv.second == ti) if (auto* gv = dyn_cast<GlobalVariable>(kv.first)) if (gv->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(gv->getInitializer())) { for (unsigned i = 2; i < cs->getNumOperands(); i++) { Constant* o = cs->getOperand(i); if (o->getType()->isPointerTy()) if (auto* b = dyn_cast<GlobalVariable>(o->stripPointerCasts())) bases.push_back(gaddr[b]); } }
    cache[ti] = bases; return 0;
}
static bool tiMatch(u64 thrown, u64 want) { if (thrown == want) return true; std::vector<u64> b; tiBase(thrown, b); for (u64 x : b) if (tiMatch(x, want)) return true; return false; }
static std::string tiName(u64 ti) { for (auto& kv : gaddr) if (kv.second == ti) return kv.first->getName().str(); return "?"; }
static std::string excText(State& S, u64 obj);
static void unwind(State& S) {
    // search for a handler first
    bool handler = false;
    for (int i = (int)S.st.size() - 1; i >= 0 && !handler; i--) if (auto* inv = dyn_cast<InvokeInst>(&*S.st[i].pc)) { auto* lp = inv->getLandingPadInst(); for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) { Val t = cval(lp->getClause(k)); if (t.c == 0 || tiMatch(S.cur.ti, t.c)) { handler = true; break; } } }
    if (!handler) viol("uncaught exception", tiName(S.cur.ti));
    for (;;) {
        Frame& f = S.st.back();
        if (auto* inv = dyn_cast<InvokeInst>(&*f.pc)) {
            auto* lp = inv->getLandingPadInst(); int sel = 0; bool take = lp->isCleanup();
            for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) { Val t = cval(lp->getClause(k)); if (t.c == 0 || tiMatch(S.cur.ti, t.c)) { sel = (int)(t.c & 0x7fffffff); if (!t.c) sel = 1; take = true; break; } }
            if (take) { u64 obj = S.cur.obj; S.excObjs[obj] = S.cur; jump(S, f, inv->getUnwindDest()); setReg(f, lp, mkAgg({mkC(64, obj), mkC(32, (u64)sel)})); f.pc = BasicBlock::iterator(lp); ++f.pc; return; }
        }
        killAllocas(S, f); S.st.pop_back(); if (S.st.empty()) viol("uncaught exception", tiName(S.cur.ti));
    }
}

static void pushFrame(State& S, Function* F, const std::vector<Val>& args, bool) {
    if (S.st.size() > 2000) viol("stack overflow", "recursion deeper than 2000 frames in " + F->getName().str());
    Frame f; f.fi = info(F); f.regs.resize(f.fi->n); f.bb = &F->getEntryBlock(); f.pc = f.bb->begin();
    unsigned i = 0; for (auto& a : F->args()) { if (i >= args.size()) unsup("arg count"); f.regs[i] = args[i]; if (a.hasByValAttr()) { u64 sz = DL->getTypeAllocSize(a.getParamByValType()).getFixedValue(); u64 p = allocate(S, sz, 's', "byval"); copyMem(S, p, args[i].c, sz); f.allocas.push_back(p); f.regs[i] = mkC(64, p); } i++; }
    for (; i < args.size(); i++) f.varargs.push_back(args[i]);
    fnCount[F]++; S.st.push_back(std::move(f));
}
static void retTo(State& S, const Val* v) {
    killAllocas(S, S.st.back()); S.st.pop_back(); dropDead(S);
    if (S.st.empty()) return;
    Frame& f = S.st.back(); Instruction* I = &*f.pc;
    if (auto* c = dyn_cast<CallBase>(I)) { if (v && !c->getType()->isVoidTy()) setReg(f, I, *v); if (auto* inv = dyn_cast<InvokeInst>(c)) jump(S, f, inv->getNormalDest()); else ++f.pc; }
    else unsup("return to non-call");
}

// named symbolic inputs
static std::string inKey(State& S, const std::string& n) { int k = S.inCount[n]++; return n + "#" + std::to_string(k); }
static Val newInput(State& S, const std::string& n, char type, unsigned w) {
    std::string key = inKey(S, n); Z3_sort so = type == 'i' ? bvs(w) : type == 'r' ? sReal : type == 'd' ? sF64 : sF32;
    std::string sn = "in:" + key; Z3_ast a = Z3_mk_const(C, Z3_mk_string_symbol(C, sn.c_str()), so); S.inputs.push_back({key, type, a, w});
    return mkAst(type == 'i' ? K_BV : type == 'r' ? K_RL : K_FP, w, a);
}
static void assumeC(State& S, Z3_ast c) {
    if (c == aTrue) return; if (c == aFalse) throw PathEnd();
    Z3_model m = nullptr; int r = check(S, c, &m); if (r == -1) throw PathEnd(); if (r == 0) { incomplete.push_back("solver gave no answer for an assumption at " + locOf(S)); throw PathEnd(); }
    S.pc.push_back(c); S.model = m;
}
static void doAssert(State& S, const Val& c, const std::string& msg, Z3_ast prefer = nullptr) {
    nOblig++; oblByMsg[msg]++;
    if (c.conc()) { if (c.c & 1) { nDischarged++; return; } Z3_model m = anyModel(S); if (S.pc.size() && (!S.model)) m = anyModel(S); reportViolation(S, m, "assertion", msg); throw PathEnd(); }
    Z3_ast cb = toBool(c), nc = Z3_simplify(C, Z3_mk_not(C, cb)); Z3_model m = nullptr; int r = check(S, nc, &m);
    if (r == -1) { nDischarged++; return; }
    if (r == 0) { incomplete.push_back("solver gave no answer for assertion '" + msg + "'"); throw PathEnd(); }
    if (prefer) { Z3_ast q[2] = {nc, prefer}; Z3_model m2 = nullptr; if (check(S, Z3_simplify(C, Z3_mk_and(C, 2, q)), &m2, 20000) == 1) m = m2; }
    reportViolation(S, m, "assertion", msg);
    if ((int)violations.size() >= optMaxViol) throw PathEnd();
    m = nullptr; if (check(S, cb, &m) != 1) throw PathEnd(); S.pc.push_back(cb); S.model = m;
}
static Z3_ast sameFP(const Val& a, const Val& b) {
    if (a.conc() && b.conc()) { double x = a.w == 64 ? asD(a.c) : asF(a.c), y = b.w == 64 ? asD(b.c) : asF(b.c); return (a.c == b.c || (std::isnan(x) && std::isnan(y))) ? aTrue : aFalse; }
    if (optReal) { if (!finC(a) || !finC(b)) return aFalse; Z3_ast q = nfCompare(toRL(a), toRL(b), 0); if (q) return Z3_simplify(C, q); return Z3_simplify(C, Z3_mk_eq(C, toRL(a), toRL(b))); }
    return Z3_simplify(C, Z3_mk_eq(C, toFP(a), toFP(b)));
}
static void forkSplit(State& S, Z3_ast cond, Z3_model mTrue) { // S continues with cond; the other state re-executes the instruction
    Z3_ast nn = Z3_simplify(C, Z3_mk_not(C, cond)); Z3_model m2 = nullptr; int r2 = check(S, nn, &m2);
    if (r2 == 1) { StateP o = cloneState(S); o->pc.push_back(nn); o->model = m2; work.push_back(std::move(o)); }
    S.pc.push_back(cond); if (mTrue) S.model = mTrue;
}
// sign of a real term on this path, forking when both are possible: returns the term or its negation
static Z3_ast absHere(State& S, Z3_ast x) {
    Z3_ast zero = Z3_mk_numeral(C, "0", sReal), neg = nfCompare(x, zero, 3); if (!neg) neg = Z3_mk_lt(C, x, zero); neg = Z3_simplify(C, neg); anyModel(S);
    Z3_model m = nullptr; int r = check(S, neg, &m);
    if (r == -1) return x;
    if (r == 0) incomplete.push_back("solver gave no answer for a sign at " + locOf(S));
    Z3_ast nn = Z3_simplify(C, Z3_mk_not(C, neg)); Z3_model m2 = nullptr; if (r == 1 && check(S, nn, &m2) == -1) return Z3_mk_unary_minus(C, x);
    forkSplit(S, neg, m); return Z3_mk_unary_minus(C, x);
}
static Val rlSqrt(State& S, const Val& v) {
    Z3_ast x = toRL(v); Z3_ast zero = Z3_mk_numeral(C, "0", sReal);
    bool outerConst = false; auto mark = [&](Val r) { if (r.a) { auto it = sosOf.find(Z3_get_ast_id(C, x)); unsigned id = Z3_get_ast_id(C, r.a); if (it != sosOf.end()) { auto l = it->second; if (outerConst) { if (!sosOf.count(id)) sosOf[id] = l; } else if (!zerosOf.count(id)) zerosOf[id] = l; } } return r; };
    Z3_model mm = nullptr; Z3_ast neg = nfCompare(x, zero, 3); if (!neg) neg = Z3_mk_lt(C, x, zero); neg = Z3_simplify(C, neg);
    RatFn rf = nf(x); bool square = false; Poly inner, outer; Poly D = pConst(1), num = rf.n;
    try { for (auto& f : rf.d) { for (int i = 0; i < (f.second + 1) / 2; i++) D = pMul(D, f.first); if (f.second & 1) num = pMul(num, f.first); }
        bool roots = false; for (auto& t : num) for (auto& f : t.first) if (atoms[f.first].root) roots = true;
        if (roots) { Poly r; if (pSqrtExact(num, r)) { outer = r; inner = pConst(1); } else { outer = pConst(1); inner = num; } } else squareSplit(num, outer, inner);
        square = true; outerConst = pIsConst(outer) && pIsConst(D); } catch (PolyTooBig&) { }
    if (square && pIsConst(inner) && pConstVal(inner) >= 0) { // |outer| * sqrt(const) / |D|
        RatFn q; q.n = outer; q = rfMul(q, rfInv([&] { RatFn d; d.n = D; return d; }())); Z3_ast t = absHere(S, Z3_simplify(C, rfAst(q)));
        if (inner.empty()) return v.w == 64 ? mkC(64, 0) : mkC(32, 0);
        if (pConstVal(inner) != 1) { int k = rootAtom(inner); Z3_ast f[2] = {t, atoms[k].ast}; t = Z3_mk_mul(C, 2, f); }
        return mark(fromRL(v.w, t));
    }
    anyModel(S); int r = check(S, neg, &mm);
    if (r == 1) { // NaN side: fork it away as tainted
        forkSplit(S, neg, mm); S.tainted = true; return mkC(v.w, v.w == 64 ? fromD(NAN) : fromF(NAN));
    }
    if (r == 0) incomplete.push_back("solver gave no answer for the sign of a square root argument");
    if (!square) { Poly p; p[Mono{{atomFor(x), 1}}] = 1; int k = rootAtom(p); outerConst = true; return mark(mkAst(K_RL, v.w, atoms[k].ast)); }
    RatFn q; q.n = outer; q = rfMul(q, rfInv([&] { RatFn d; d.n = D; return d; }()));
    Z3_ast t = pIsConst(outer) && pIsConst(D) ? rfAst(q) : absHere(S, Z3_simplify(C, rfAst(q))); int k = rootAtom(inner); { std::vector<std::pair<Poly, int>> dummy; Poly m = inner; RQ lc = m.begin()->second; for (auto& t : m) t.second /= lc; addSplit(dummy, m, 1); }
    Z3_ast f[2] = {t, atoms[k].ast}; return mark(fromRL(v.w, Z3_mk_mul(C, 2, f)));
}
static Val fpFun(State& S, const std::string& n, const Val& a, const Val* b, const Val* c3) {
    unsigned w = a.w; bool cc = a.conc() && (!b || b->conc()) && (!c3 || c3->conc());
    if (a.k == K_AGG) { std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(fpFun(S, n, (*a.agg)[i], b ? &(*b->agg)[i] : nullptr, c3 ? &(*c3->agg)[i] : nullptr)); return mkAgg(v); }
    if (w > 64) { if (!cc) unsup("long double"); long double x = ldOf(a); if (n == "fabs") return mkLD(fabsl(x)); if (n == "ceil") return mkLD(ceill(x)); if (n == "floor") return mkLD(floorl(x)); if (n == "sqrt") return mkLD(sqrtl(x)); unsup("long double " + n); }
    auto D = [&](const Val& v) { return w == 64 ? asD(v.c) : (double)asF(v.c); }; auto R = [&](double d) { return w == 64 ? mkC(64, fromD(d)) : mkC(32, fromF((float)d)); };
    if (cc) {
        double x = D(a), y = b ? D(*b) : 0; bool exactOnly = optReal;
        if (n == "fabs") return R(std::fabs(x)); if (n == "floor") return R(std::floor(x)); if (n == "ceil") return R(std::ceil(x)); if (n == "trunc") return R(std::trunc(x)); if (n == "rint" || n == "nearbyint") return R(std::nearbyint(x)); if (n == "round") return R(std::round(x));
        if (n == "copysign") return R(std::copysign(x, y)); if (n == "fmin") return R(std::fmin(x, y)); if (n == "fmax") return R(std::fmax(x, y));
        if (n == "sqrt") { double s = w == 64 ? std::sqrt(x) : (double)std::sqrt((float)x); if (!exactOnly || !(x >= 0) || (s * s == x && std::fma(s, s, -x) == 0)) return R(s); }
        else if (n == "fma" || n == "fmuladd") { Val m = fbin(Instruction::FMul, a, *b); if (n == "fma" && !optReal) return R(w == 64 ? std::fma(x, y, D(*c3)) : (double)std::fma((float)x, (float)y, (float)D(*c3))); return fbin(Instruction::FAdd, m, *c3); }
        else if (n == "fmod") return R(std::fmod(x, y));
        else if (!exactOnly) { if (n == "pow") return R(std::pow(x, y)); if (n == "exp") return R(std::exp(x)); if (n == "log") return R(std::log(x)); if (n == "log10") return R(std::log10(x)); if (n == "log2") return R(std::log2(x)); if (n == "sin") return R(std::sin(x)); if (n == "cos") return R(std::cos(x)); if (n == "tan") return R(std::tan(x)); if (n == "acos") return R(std::acos(x)); if (n == "asin") return R(std::asin(x)); if (n == "atan") return R(std::atan(x)); if (n == "atan2") return R(std::atan2(x, y)); if (n == "cbrt") return R(std::cbrt(x)); if (n == "exp2") return R(std::exp2(x)); unsup("libm " + n); }
    }
    if (n == "pow" && b && b->conc()) { double y = D(*b); if (y == 2) return fbin(Instruction::FMul, a, a); if (y == 1) return a; if (y == 3) return fbin(Instruction::FMul, fbin(Instruction::FMul, a, a), a); if (y == 0) return R(1); if (y == 0.5) return fpFun(S, "sqrt", a, nullptr, nullptr); if (y == -1) return fbin(Instruction::FDiv, R(1), a); if (y == -2) return fbin(Instruction::FDiv, R(1), fbin(Instruction::FMul, a, a)); }
    if (n == "fma" || n == "fmuladd") { if (n == "fma" && !optReal) return fromFP(w, Z3_mk_fpa_fma(C, rRNE, toFP(a), toFP(*b), toFP(*c3))); return fbin(Instruction::FAdd, fbin(Instruction::FMul, a, *b), *c3); }
    if (optReal) {
        Z3_ast x = toRL(a), zero = Z3_mk_numeral(C, "0", sReal);
        if (n == "fabs") return fromRL(w, absHere(S, x));
        if (n == "sqrt") return rlSqrt(S, a);
        if (n == "fmin") { Z3_ast y = toRL(*b); return fromRL(w, Z3_mk_ite(C, Z3_mk_lt(C, y, x), y, x)); } if (n == "fmax") { Z3_ast y = toRL(*b); return fromRL(w, Z3_mk_ite(C, Z3_mk_gt(C, y, x), y, x)); }
        if (n == "copysign") { Z3_ast y = toRL(*b); Z3_ast ax = Z3_mk_ite(C, Z3_mk_lt(C, x, zero), Z3_mk_unary_minus(C, x), x); return fromRL(w, Z3_mk_ite(C, Z3_mk_lt(C, y, zero), Z3_mk_unary_minus(C, ax), ax)); }
        if (n == "floor") return fromRL(w, Z3_mk_int2real(C, Z3_mk_real2int(C, x)));
        if (n == "ceil") return fromRL(w, Z3_mk_unary_minus(C, Z3_mk_int2real(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x)))));
        if (n == "trunc") { Z3_ast d = Z3_mk_int2real(C, Z3_mk_real2int(C, x)), u = Z3_mk_unary_minus(C, Z3_mk_int2real(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x)))); return fromRL(w, Z3_mk_ite(C, Z3_mk_lt(C, x, zero), u, d)); }
        if (n == "round") { Z3_ast h = Z3_mk_numeral(C, "1/2", sReal); auto fl = [&](Z3_ast v) { Z3_ast s[2] = {v, h}; return Z3_mk_int2real(C, Z3_mk_real2int(C, Z3_mk_add(C, 2, s))); }; return fromRL(w, Z3_mk_ite(C, Z3_mk_lt(C, x, zero), Z3_mk_unary_minus(C, fl(Z3_mk_unary_minus(C, x))), fl(x))); }
        { Z3_sort ss[2] = {sReal, sReal}; Z3_ast ar[2] = {x, b ? toRL(*b) : zero}; unsigned k = b ? 2 : 1; Z3_func_decl fd = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("real!" + n).c_str()), k, ss, sReal); Z3_inc_ref(C, Z3_func_decl_to_ast(C, fd)); return fromRL(w, Z3_mk_app(C, fd, k, ar)); } // a function nothing is known of

    }
    Z3_ast x = toFP(a);
    if (n == "fabs") return fromFP(w, Z3_mk_fpa_abs(C, x)); if (n == "sqrt") return fromFP(w, Z3_mk_fpa_sqrt(C, rRNE, x));
    if (n == "floor") return fromFP(w, Z3_mk_fpa_round_to_integral(C, rRTN, x)); if (n == "ceil") return fromFP(w, Z3_mk_fpa_round_to_integral(C, rRTP, x)); if (n == "trunc") return fromFP(w, Z3_mk_fpa_round_to_integral(C, rRTZ, x)); if (n == "rint" || n == "nearbyint") return fromFP(w, Z3_mk_fpa_round_to_integral(C, rRNE, x));
    if (n == "fmin") return fromFP(w, Z3_mk_fpa_min(C, x, toFP(*b))); if (n == "fmax") return fromFP(w, Z3_mk_fpa_max(C, x, toFP(*b)));
    if (n == "copysign") { Z3_ast s = Z3_mk_fpa_is_negative(C, toFP(*b)); Z3_ast ax = Z3_mk_fpa_abs(C, x); return fromFP(w, Z3_mk_ite(C, s, Z3_mk_fpa_neg(C, ax), ax)); }
    // transcendental functions are uninterpreted
    if (c3 || n == "fmod") unsup("libm " + n + " on a symbolic value");
    if (n == "round") return fromFP(w, Z3_mk_fpa_round_to_integral(C, rRNA, x));
    Z3_sort so = w == 64 ? sF64 : sF32; Z3_sort dom[2] = {so, so}; unsigned na = b ? 2 : 1; Z3_ast ar[2] = {x, b ? toFP(*b) : nullptr};
    Z3_func_decl fd = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("libm." + n + std::to_string(w)).c_str()), na, dom, so);
    return fromFP(w, Z3_mk_app(C, fd, na, ar));
}

#include "calls.inc"

static void step(State& S) {
    Frame& f = S.st.back(); Instruction* I = &*f.pc; S.insts++; nInsts++;
    switch (I->getOpcode()) {
        case Instruction::Ret: { auto* r = cast<ReturnInst>(I); if (r->getReturnValue()) { Val v = ev(S, f, r->getReturnValue()); retTo(S, &v); } else retTo(S, nullptr); return; }
        case Instruction::Br: {
            auto* b = cast<BranchInst>(I); if (b->isUnconditional()) { jump(S, f, b->getSuccessor(0)); return; }
            Val c = ev(S, f, b->getCondition()); if (c.conc()) { jump(S, f, b->getSuccessor((c.c & 1) ? 0 : 1)); return; }
            branch(S, Z3_simplify(C, toBool(c)), [b](State& T, bool t) { jump(T, T.st.back(), b->getSuccessor(t ? 0 : 1)); }); return; }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(I); Val c = ev(S, f, sw->getCondition());
            if (c.conc()) { for (auto& k : sw->cases()) if (k.getCaseValue()->getZExtValue() == c.c) { jump(S, f, k.getCaseSuccessor()); return; } jump(S, f, sw->getDefaultDest()); return; }
            // group by successor: test the cases one after another
            Z3_ast a = toBV(c);
            for (auto& k : sw->cases()) {
                Z3_ast e = Z3_simplify(C, Z3_mk_eq(C, a, bvNum(c.w, k.getCaseValue()->getZExtValue()))); Z3_model m = nullptr; anyModel(S); int r = check(S, e, &m); if (r == 0) incomplete.push_back("solver gave no answer for a switch");
                if (r == 1) { StateP o = cloneState(S); o->pc.push_back(e); o->model = m; BasicBlock* d = k.getCaseSuccessor(); jump(*o, o->st.back(), d); work.push_back(std::move(o)); Z3_ast ne = Z3_simplify(C, Z3_mk_not(C, e)); assumeC(S, ne); } }
            jump(S, f, sw->getDefaultDest()); return; }
        case Instruction::Unreachable: viol("undefined behaviour", "control reached an unreachable point (missing return or undefined operation) in " + f.fi->f->getName().str());
        case Instruction::Call: case Instruction::Invoke: doCall(S, cast<CallBase>(I)); return;
        case Instruction::Resume: { Val v = ev(S, f, I->getOperand(0)); u64 obj = (*v.agg)[0].c; S.cur = S.excObjs[obj]; killAllocas(S, f); S.st.pop_back(); if (S.st.empty()) viol("uncaught exception", tiName(S.cur.ti)); unwind(S); return; }
        case Instruction::LandingPad: unsup("landingpad reached directly");
        case Instruction::Alloca: { auto* a = cast<AllocaInst>(I); Val n = ev(S, f, a->getArraySize()); u64 cnt = concretize(S, n); u64 sz = DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue() * cnt; u64 p = allocate(S, sz, 's', "local"); f.allocas.push_back(p); setReg(f, I, mkC(64, p)); break; }
        case Instruction::Load: { Val p = ev(S, f, I->getOperand(0)); Val v = loadT(S, p, I->getType()); setReg(S.st.back(), I, v); break; }
        case Instruction::Store: { Val p = ev(S, f, I->getOperand(1)); Val v = ev(S, f, I->getOperand(0)); storeT(S, p, v, I->getOperand(0)->getType()); break; }
        case Instruction::GetElementPtr: { setReg(f, I, gepConst(cast<GEPOperator>(I), [&](const Value* v) { return ev(S, f, v); })); break; }
        case Instruction::ICmp: setReg(f, I, icmp(cast<CmpInst>(I)->getPredicate(), ev(S, f, I->getOperand(0)), ev(S, f, I->getOperand(1)))); break;
        case Instruction::FCmp: setReg(f, I, fcmp(cast<CmpInst>(I)->getPredicate(), ev(S, f, I->getOperand(0)), ev(S, f, I->getOperand(1)))); break;
        case Instruction::Select: { Val c = ev(S, f, I->getOperand(0)), t = ev(S, f, I->getOperand(1)), e = ev(S, f, I->getOperand(2));
            if (c.k == K_AGG) { std::vector<Val> v; for (size_t i = 0; i < c.agg->size(); i++) { Val ci = (*c.agg)[i]; v.push_back(ci.conc() ? ((ci.c & 1) ? (*t.agg)[i] : (*e.agg)[i]) : iteVal(toBool(ci), (*t.agg)[i], (*e.agg)[i])); } setReg(f, I, mkAgg(v)); break; }
            if (c.conc()) setReg(f, I, (c.c & 1) ? t : e); else setReg(f, I, iteVal(Z3_simplify(C, toBool(c)), t, e)); break; }
        case Instruction::PHI: unsup("phi"); 
        case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(I); Val v = ev(S, f, x->getAggregateOperand()); for (unsigned i : x->indices()) { Val t = (*v.agg)[i]; v = t; } setReg(f, I, v); break; }
        case Instruction::InsertValue: { auto* x = cast<InsertValueInst>(I); Val v = ev(S, f, x->getAggregateOperand()), e = ev(S, f, x->getInsertedValueOperand());
            std::function<Val(const Val&, unsigned)> ins = [&](const Val& a, unsigned d) -> Val { std::vector<Val> q = *a.agg; unsigned i = x->getIndices()[d]; q[i] = d + 1 == x->getNumIndices() ? e : ins(q[i], d + 1); return mkAgg(q); };
            setReg(f, I, ins(v, 0)); break; }
        case Instruction::ExtractElement: { Val v = ev(S, f, I->getOperand(0)), i = ev(S, f, I->getOperand(1)); u64 k = concretize(S, i); setReg(f, I, Val((*v.agg)[k])); break; }
        case Instruction::InsertElement: { Val v = ev(S, f, I->getOperand(0)), e = ev(S, f, I->getOperand(1)), i = ev(S, f, I->getOperand(2)); u64 k = concretize(S, i); std::vector<Val> q = *v.agg; q[k] = e; setReg(f, I, mkAgg(q)); break; }
        case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); Val a = ev(S, f, sv->getOperand(0)), b = ev(S, f, sv->getOperand(1)); std::vector<Val> q; size_t n = a.agg->size(); for (int k : sv->getShuffleMask()) q.push_back(k < 0 ? zeroOf(I->getType()->getScalarType()) : (size_t)k < n ? (*a.agg)[k] : (*b.agg)[k - n]); setReg(f, I, mkAgg(q)); break; }
        case Instruction::FNeg: setReg(f, I, fneg(ev(S, f, I->getOperand(0)))); break;
        case Instruction::Freeze: setReg(f, I, ev(S, f, I->getOperand(0))); break;
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(I); Val p = ev(S, f, a->getPointerOperand()), v = ev(S, f, a->getValOperand()); Val o = loadT(S, p, a->getType()); Val n; switch (a->getOperation()) { case AtomicRMWInst::Add: n = binop(Instruction::Add, o, v, &S); break; case AtomicRMWInst::Sub: n = binop(Instruction::Sub, o, v, &S); break; case AtomicRMWInst::Xchg: n = v; break; default: unsup("atomicrmw"); } storeT(S, p, n, a->getType()); setReg(f, I, o); break; }
        case Instruction::AtomicCmpXchg: { auto* a = cast<AtomicCmpXchgInst>(I); Val p = ev(S, f, a->getPointerOperand()), c = ev(S, f, a->getCompareOperand()), n = ev(S, f, a->getNewValOperand()); Val o = loadT(S, p, c.w == 64 && a->getCompareOperand()->getType()->isPointerTy() ? a->getCompareOperand()->getType() : a->getCompareOperand()->getType()); Val e = icmp(CmpInst::ICMP_EQ, o, c); if (!e.conc()) unsup("cmpxchg"); if (e.c & 1) storeT(S, p, n, a->getCompareOperand()->getType()); setReg(f, I, mkAgg({o, e})); break; }
        default:
            if (I->isCast()) { setReg(f, I, castop(I->getOpcode(), ev(S, f, I->getOperand(0)), I->getOperand(0)->getType(), I->getType())); break; }
            if (I->isBinaryOp()) {
                Val a = ev(S, f, I->getOperand(0)), b = ev(S, f, I->getOperand(1)); unsigned op = I->getOpcode();
                if (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul || op == Instruction::FDiv || op == Instruction::FRem) {
                    if (op == Instruction::FDiv && optReal && b.k != K_AGG && a.w <= 64) {
                        Z3_ast z = nullptr; bool zero = false;
                        if (b.conc()) { zero = (b.w == 64 ? asD(b.c) : asF(b.c)) == 0; } else { Z3_ast zz = Z3_mk_numeral(C, "0", sReal); z = nfCompare(toRL(b), zz, 0); if (!z) z = Z3_mk_eq(C, toRL(b), zz); z = Z3_simplify(C, z); }
                        if (z && z != aFalse) {
                            Z3_ast nz = Z3_simplify(C, Z3_mk_not(C, z)); Z3_model m = nullptr; anyModel(S); int r = z == aTrue ? 1 : check(S, z, &m);
                            if (r == 0) incomplete.push_back("solver gave no answer for a zero divisor at " + locOf(S));
                            if (r == 1) { // the other state divides by a non-zero value and re-executes the instruction
                                Z3_model m2 = nullptr; if (check(S, nz, &m2) == 1) { StateP o = cloneState(S); o->pc.push_back(nz); o->model = m2; work.push_back(std::move(o)); }
                                S.pc.push_back(z); if (m) S.model = m; zero = true; }
                        }
                        if (zero) { S.tainted = true; S.notes.push_back("division by zero"); double num = 1; if (a.conc()) num = a.w == 64 ? asD(a.c) : asF(a.c); else { Z3_ast az = Z3_simplify(C, Z3_mk_eq(C, toRL(a), Z3_mk_numeral(C, "0", sReal))); Z3_model m3 = nullptr; if (az == aTrue || check(S, az, &m3) == 1) num = NAN; } 
                            double q = std::isnan(num) || num == 0 ? NAN : num > 0 ? INFINITY : -INFINITY; setReg(f, I, a.w == 64 ? mkC(64, fromD(q)) : mkC(32, fromF((float)q))); break; }
                    }
                    if (optReal && S.tainted && (!finC(a) || !finC(b)) && a.k != K_AGG) { // non-finite arithmetic: propagate as NaN/Inf where decidable
                        Val x = a, y = b; if (!x.conc()) x = mkC(x.w, x.w == 64 ? fromD(1) : fromF(1)); if (!y.conc()) y = mkC(y.w, y.w == 64 ? fromD(1) : fromF(1)); setReg(f, I, fbin(op, x, y)); break; }
                    setReg(f, I, fbin(op, a, b)); break; }
                if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
                    if (b.conc()) { if (!b.c && !b.chi) viol("arithmetic", "integer division by zero"); }
                    else { Z3_ast z = Z3_simplify(C, Z3_mk_eq(C, toBV(b), bvNum(b.w, 0))); if (z != aFalse) { Z3_model m = nullptr; anyModel(S); int r = check(S, z, &m); if (r == 1) { reportViolation(S, m, "arithmetic", "integer division by zero"); assumeC(S, Z3_simplify(C, Z3_mk_not(C, z))); } else if (r == 0) incomplete.push_back("zero divisor undecided"); } }
                }
                setReg(f, I, binop(op, a, b, &S)); break;
            }
            unsup(std::string("instruction ") + I->getOpcodeName());
    }
    ++S.st.back().pc;
}

// ---------------------------------------------------------------- driver
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static void writeOut(bool complete, double wall) {
    std::string j = "{"; auto kv = [&](const std::string& k, const std::string& v) { j += "\"" + k + "\":" + v + ","; }; auto N = [](u64 x) { return std::to_string(x); };
    kv("complete", complete ? "true" : "false"); kv("paths", N(nPaths)); kv("instructions", N(nInsts)); kv("queries", N(nQueries)); kv("cache_hits", N(nCacheHits)); kv("model_hits", N(nModelHit)); kv("forks", N(nForks)); kv("obligations", N(nOblig)); kv("discharged", N(nDischarged)); kv("unknown", N(nUnknown)); kv("solver_s", std::to_string(solverTime)); kv("wall_s", std::to_string(wall));
    auto reps = [&](std::vector<Report>& R) { std::string s = "["; for (auto& r : R) { if (s.size() > 1) s += ","; s += "{\"kind\":\"" + jesc(r.kind) + "\",\"msg\":\"" + jesc(r.msg) + "\",\"loc\":\"" + jesc(r.loc) + "\",\"tainted\":" + (r.tainted ? "true" : "false") + ",\"model\":["; bool fst = true; for (auto& m : r.model) { if (!fst) s += ","; fst = false; s += "[\"" + jesc(m.first) + "\",\"" + m.second + "\"]"; } s += "]}"; } return s + "]"; };
    kv("violations", reps(violations)); kv("witnesses", reps(witnesses));
    std::string s = "{"; for (auto& x : reach) { if (s.size() > 1) s += ","; s += "\"" + jesc(x.first) + "\":" + N(x.second); } kv("reach", s + "}");
    s = "{"; for (auto& x : oblByMsg) { if (s.size() > 1) s += ","; s += "\"" + jesc(x.first) + "\":" + N(x.second); } kv("obligations_by_msg", s + "}");
    s = "["; std::set<std::string> inc(incomplete.begin(), incomplete.end()); for (auto& x : inc) { if (s.size() > 1) s += ","; s += "\"" + jesc(x) + "\""; } kv("incomplete", s + "]");
    std::map<std::string, u64> fns; u64 all = 0, lib = 0;
    for (auto& kv2 : fnCount) { all++; if (auto* sp = kv2.first->getSubprogram()) { std::string fn = sp->getFilename().str(); if (fn.find("GTMesh/") != std::string::npos) { lib++; fns[fn.substr(fn.find("GTMesh/")) + ":" + sp->getName().str()] += kv2.second; } } }
    // inlined library functions: collect from debug locations of executed functions
    for (auto& kv2 : fnCount) for (auto& bb : *const_cast<Function*>(kv2.first)) for (auto& i : bb) if (const DILocation* L = i.getDebugLoc().get()) { while (L) { if (auto* sp = L->getScope()->getSubprogram()) { std::string fn = sp->getFilename().str(); if (fn.find("GTMesh/") != std::string::npos) { std::string k = fn.substr(fn.find("GTMesh/")) + ":" + sp->getName().str(); if (!fns.count(k)) fns[k] = 0; } } L = L->getInlinedAt(); } }
    kv("functions_executed", N(all)); s = "["; for (auto& x : fns) { if (s.size() > 1) s += ","; s += "\"" + jesc(x.first) + "\""; } kv("library_functions", s + "]");
    j.back() = '}'; if (optOut.empty()) std::cout << j << "\n"; else { std::ofstream o(optOut); o << j << "\n"; }
}

int main(int argc, char** argv) {
    std::string file;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto val = [&](const char* p) { return a.substr(strlen(p)); };
        if (a == "--real") optReal = true; else if (a == "--float-exact") optLossy = false; else if (a.rfind("--time=", 0) == 0) optMaxTime = atof(val("--time=").c_str()); else if (a.rfind("--paths=", 0) == 0) optMaxPaths = atoll(val("--paths=").c_str()); else if (a.rfind("--query=", 0) == 0) optQueryTO = atoi(val("--query=").c_str()); else if (a.rfind("--entry=", 0) == 0) optEntry = val("--entry="); else if (a.rfind("--out=", 0) == 0) optOut = val("--out="); else if (a.rfind("--witness=", 0) == 0) optWitness = atoi(val("--witness=").c_str()); else if (a.rfind("--insts=", 0) == 0) optMaxInstPath = atoll(val("--insts=").c_str()); else if (a == "-v") optVerbose = true; else file = a; }
    t0 = now(); struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512UL << 20; getrlimit(RLIMIT_STACK, &rl);
    LLVMContext LC; SMDiagnostic err; auto mod = parseIRFile(file, err, LC); if (!mod) { err.print("symex", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); C = Z3_mk_context(cfg); Z3_set_error_handler(C, z3Handler);
    sBool = Z3_mk_bool_sort(C); sReal = Z3_mk_real_sort(C); sInt = Z3_mk_int_sort(C); sF32 = Z3_mk_fpa_sort_single(C); sF64 = Z3_mk_fpa_sort_double(C); rRNE = Z3_mk_fpa_rne(C); rRTZ = Z3_mk_fpa_rtz(C); rRTN = Z3_mk_fpa_rtn(C); rRTP = Z3_mk_fpa_rtp(C); rRNA = Z3_mk_fpa_rna(C); aTrue = Z3_mk_true(C); aFalse = Z3_mk_false(C);
    { Z3_sort d[1] = {sReal}; fRBits64 = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, "realbits64"), 1, d, bvs(64)); fRBits32 = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, "realbits32"), 1, d, bvs(32)); fRound32 = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, "round32"), 1, d, sReal); }
    StateP S0 = std::make_unique<State>(); State& S = *S0;
    try {
        u64 fa = 0x10000; for (auto& F : *M) { gaddr[&F] = fa; addrFn[fa] = &F; fa += 16; }
        S.nextAddr = 0x100000; if (fa > S.nextAddr) S.nextAddr = fa + 0x10000;
        for (auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64; if (!G.hasInitializer()) sz = std::max<u64>(sz, 256); gaddr[&G] = allocate(S, sz, 'g', G.getName().str(), true); }
        for (auto& G : M->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) { if (!isa<UndefValue>(G.getInitializer())) storeT(S, mkC(64, gaddr[&G]), cval(G.getInitializer()), G.getValueType()); if (G.isConstant()) S.mem[gaddr[&G]]->ro = true; }
        for (auto& G : M->globals()) if (!G.hasInitializer() && G.getName().starts_with("_ZTI")) { std::string n = G.getName().substr(4).str(); u64 a = allocate(S, n.size() + 1, 'g', "type name", true); for (size_t k = 0; k <= n.size(); k++) storeT(S, mkC(64, a + k), mkC(8, k < n.size() ? (u64)(unsigned char)n[k] : 0), Type::getInt8Ty(M->getContext())); storeT(S, mkC(64, gaddr[&G] + 8), mkC(64, a), Type::getInt64Ty(M->getContext())); }
        Function* E = M->getFunction(optEntry); if (!E) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
        // entry first, constructors on top of it (last one runs first -> push in reverse order)
        std::vector<Function*> ctors; if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function*>> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* cs = cast<ConstantStruct>(ca->getOperand(i)); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) ctors.push_back(p.second); }
        Z3_model m0 = Z3_mk_model(C); Z3_model_inc_ref(C, m0); S.model = m0;
        for (auto* c : ctors) { pushFrame(S, c, {}, false); while (!S.st.empty()) step(S); if (!work.empty()) unsup("fork in a static constructor"); }
        pushFrame(S, E, {}, false); work.push_back(std::move(S0));
    } catch (Unsupported& u) { incomplete.push_back("start-up: " + u.msg); } catch (Violation& v) { incomplete.push_back("start-up violation: " + v.kind + ": " + v.msg + " at " + locOf(S)); } catch (PathEnd&) { incomplete.push_back("start-up ended"); }
    bool timeout = false;
    while (!work.empty()) {
        if ((int)violations.size() >= optMaxViol) break;
        StateP sp = std::move(work.back()); work.pop_back(); State& T = *sp; bool finished = false;
        try {
            u64 k = 0;
            while (!T.st.empty()) { step(T); if ((++k & 1023) == 0) { if (now() - t0 > optMaxTime) { timeout = true; break; } if (T.insts > optMaxInstPath) viol("hang", "path executes more than " + std::to_string(optMaxInstPath) + " instructions"); } }
            if (timeout) { incomplete.push_back("time limit"); break; }
            finished = true;
        } catch (PathEnd&) { }
        catch (Unsupported& u) { std::string l = T.st.empty() ? "" : locOf(T) + " in " + T.st.back().fi->f->getName().str(); incomplete.push_back("unsupported: " + u.msg + " at " + l); z3err.clear(); if (optVerbose) fprintf(stderr, "UNSUP %s at %s\n", u.msg.c_str(), l.c_str()); }
        catch (Violation& v) { try { Z3_model m = anyModel(T); reportViolation(T, m, v.kind, v.msg); } catch (PathEnd&) { } catch (Unsupported& u) { incomplete.push_back("violation without model"); } nOblig++; }
        if (finished) { nPaths++; for (auto& l : T.labels) reach[l]++;
            if ((int)witnesses.size() < optWitness || (nPaths & (nPaths - 1)) == 0) { try { Z3_model m = anyModel(T); Report R; R.kind = "witness"; R.tainted = T.tainted; fillModel(T, m, R); if ((int)witnesses.size() < optWitness + 12) witnesses.push_back(R); } catch (...) { } } }
        if (nPaths > optMaxPaths) { incomplete.push_back("path limit"); break; }
        if (incomplete.size() > 200) break;
    }
    bool complete = incomplete.empty() && !timeout && work.empty();
    writeOut(complete, now() - t0); fflush(stdout); _exit(0);
}
