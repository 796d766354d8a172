static void finishCall(State& S, CallBase* I, const Val* v) {
    Frame& f = S.st.back(); if (v && !I->getType()->isVoidTy()) setReg(f, I, *v);
    if (auto* inv = dyn_cast<InvokeInst>(I)) jump(S, f, inv->getNormalDest()); else ++f.pc;
}
static void fin(State& S, CallBase* I) { finishCall(S, I, nullptr); }
static void fin(State& S, CallBase* I, const Val& v) { finishCall(S, I, &v); }

static void setMem(State& S, u64 d, const Val& b, u64 n) {
    if (!n) return; MemObj* o = checkAccess(S, d, n, true); o = writable(S, o->base); u64 off = d - o->base;
    if (b.conc()) { memset(&o->c[off], (int)b.c, n); if (!o->s.empty()) memset(&o->s[off], 0, n * 4); }
    else for (u64 i = 0; i < n; i++) storeC(S, d + i, b);
}
static u64 heapAlloc(State& S, u64 n, char kind) { if (n > (256u << 20)) viol("memory", "allocation of " + std::to_string(n) + " bytes"); return allocate(S, n, kind, "heap"); }
static void heapFree(State& S, u64 p, char kind) {
    if (!p) return; auto it = S.mem.find(p); if (it == S.mem.end()) viol("memory", "free of a pointer that was not allocated");
    if (!it->second->alive) viol("memory", "double free"); char k = it->second->kind; if (k == 's' || k == 'g') viol("memory", "free of a non-heap object");
    if (k != kind) viol("memory", std::string("mismatched deallocation: allocated with ") + (k == 'n' ? "new" : k == 'a' ? "new[]" : "malloc") + ", released with " + (kind == 'n' ? "delete" : kind == 'a' ? "delete[]" : "free"));
    auto o = std::make_shared<MemObj>(); o->base = p; o->size = it->second->size; o->kind = k; o->alive = false; it->second = o;
}
static Val minmax(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.k == K_AGG) { std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(minmax(p, (*a.agg)[i], (*b.agg)[i])); return mkAgg(v); }
    Val c = icmp(p, a, b); if (c.conc()) return (c.c & 1) ? a : b; return iteVal(toBool(c), a, b);
}
static Val ovf(Intrinsic::ID id, const Val& a, const Val& b) {
    unsigned w = a.w; unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
    Val r = binop(op, a, b, nullptr), o; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    if (a.conc() && b.conc()) { bool of; if (sg) { i128 x = sxt(a.c, w), y = sxt(b.c, w), q = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y; of = q != (i128)sxt(r.c, w); } else { u128 x = a.c, y = b.c; u128 q = op == Instruction::Add ? x + y : x * y; of = op == Instruction::Sub ? a.c < b.c : q != (u128)r.c; } o = mkC(1, of); }
    else { Z3_ast x = toBV(a), y = toBV(b), ok, args[2]; switch (id) {
        case Intrinsic::uadd_with_overflow: ok = Z3_mk_bvadd_no_overflow(C, x, y, false); break; case Intrinsic::umul_with_overflow: ok = Z3_mk_bvmul_no_overflow(C, x, y, false); break; case Intrinsic::usub_with_overflow: ok = Z3_mk_bvsub_no_underflow(C, x, y, false); break;
        case Intrinsic::sadd_with_overflow: args[0] = Z3_mk_bvadd_no_overflow(C, x, y, true); args[1] = Z3_mk_bvadd_no_underflow(C, x, y); ok = Z3_mk_and(C, 2, args); break; case Intrinsic::ssub_with_overflow: args[0] = Z3_mk_bvsub_no_overflow(C, x, y); args[1] = Z3_mk_bvsub_no_underflow(C, x, y, true); ok = Z3_mk_and(C, 2, args); break;
        default: args[0] = Z3_mk_bvmul_no_overflow(C, x, y, true); args[1] = Z3_mk_bvmul_no_underflow(C, x, y); ok = Z3_mk_and(C, 2, args); }
        o = foldBool(Z3_mk_not(C, ok)); }
    return mkAgg({r, o});
}
static Val bitcount(Intrinsic::ID id, const Val& v) {
    unsigned w = v.w; if (v.conc()) { u64 n = 0; switch (id) { case Intrinsic::ctpop: n = __builtin_popcountll(v.c); break; case Intrinsic::ctlz: n = v.c ? __builtin_clzll(v.c) - (64 - w) : w; break; case Intrinsic::cttz: n = v.c ? __builtin_ctzll(v.c) : w; break; default: break; } return mkC(w, n); }
    Z3_ast a = toBV(v), r = bvNum(w, id == Intrinsic::ctpop ? 0 : w);
    for (unsigned i = 0; i < w; i++) { unsigned bit = id == Intrinsic::ctlz ? i : w - 1 - i; Z3_ast b = Z3_mk_eq(C, Z3_mk_extract(C, bit, bit, a), bvNum(1, 1)); if (id == Intrinsic::ctpop) r = Z3_mk_bvadd(C, r, Z3_mk_ite(C, b, bvNum(w, 1), bvNum(w, 0))); else r = Z3_mk_ite(C, b, bvNum(w, id == Intrinsic::ctlz ? w - 1 - i : bit), r); }
    return foldBV(w, r);
}
static Val funnel(bool left, const Val& a, const Val& b, const Val& s) {
    unsigned w = a.w; if (!s.conc()) unsup("symbolic funnel shift"); unsigned k = s.c % w; if (!k) return left ? a : b;
    Val hi = binop(Instruction::Shl, a, mkC(w, left ? k : w - k), nullptr), lo = binop(Instruction::LShr, b, mkC(w, left ? w - k : k), nullptr); return binop(Instruction::Or, hi, lo, nullptr);
}
static Val fpclass(const Val& v, unsigned mask) {
    if (v.conc()) { double d = v.w == 64 ? asD(v.c) : asF(v.c); unsigned k = 0; int c = std::fpclassify(d); bool n = std::signbit(d); if (c == FP_NAN) k = 3; else if (c == FP_INFINITE) k = n ? 4 : 512; else if (c == FP_NORMAL) k = n ? 8 : 256; else if (c == FP_SUBNORMAL) k = n ? 16 : 128; else k = n ? 32 : 64; return mkC(1, (mask & k) != 0); }
    if (optReal) { // a real is a finite normal number or zero
        Z3_ast x = toRL(v), z = Z3_mk_numeral(C, "0", sReal); std::vector<Z3_ast> o; if (mask & 8) o.push_back(Z3_mk_lt(C, x, z)); if (mask & 256) o.push_back(Z3_mk_gt(C, x, z)); if (mask & 64) o.push_back(Z3_mk_eq(C, x, z)); if (o.empty()) return mkC(1, 0); return foldBool(Z3_mk_or(C, o.size(), o.data())); }
    Z3_ast x = toFP(v), neg = Z3_mk_fpa_is_negative(C, x), pos = Z3_mk_fpa_is_positive(C, x); std::vector<Z3_ast> o; auto A = [&](Z3_ast p, Z3_ast q) { Z3_ast t[2] = {p, q}; o.push_back(Z3_mk_and(C, 2, t)); };
    if (mask & 3) o.push_back(Z3_mk_fpa_is_nan(C, x)); if (mask & 4) A(neg, Z3_mk_fpa_is_infinite(C, x)); if (mask & 512) A(pos, Z3_mk_fpa_is_infinite(C, x)); if (mask & 8) A(neg, Z3_mk_fpa_is_normal(C, x)); if (mask & 256) A(pos, Z3_mk_fpa_is_normal(C, x)); if (mask & 16) A(neg, Z3_mk_fpa_is_subnormal(C, x)); if (mask & 128) A(pos, Z3_mk_fpa_is_subnormal(C, x)); if (mask & 32) A(neg, Z3_mk_fpa_is_zero(C, x)); if (mask & 64) A(pos, Z3_mk_fpa_is_zero(C, x));
    return foldBool(Z3_mk_or(C, o.size(), o.data()));
}
static void throwExc(State& S, u64 obj, u64 ti) { S.cur.obj = obj; S.cur.ti = ti; S.cur.dtor = 0; S.excObjs[obj] = S.cur; unwind(S); }

static bool doIntrinsic(State& S, CallBase* I, Function* F) {
    Intrinsic::ID id = F->getIntrinsicID(); Frame& f = S.st.back(); auto A = [&](unsigned i) { return ev(S, f, I->getArgOperand(i)); };
    switch (id) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::pseudoprobe: case Intrinsic::sideeffect: fin(S, I); return true;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: fin(S, I, mkC(64, 0)); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(S, A(2)); if (n) { u64 d = concretize(S, A(0)), s = concretize(S, A(1)); copyMem(S, d, s, n); } fin(S, I); return true; }
        case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(S, A(2)); if (n) { u64 d = concretize(S, A(0)); setMem(S, d, A(1), n); } fin(S, I); return true; }
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: fin(S, I, A(0)); return true;
        case Intrinsic::is_constant: fin(S, I, mkC(1, 0)); return true;
        case Intrinsic::objectsize: fin(S, I, mkC(I->getType()->getIntegerBitWidth(), ~0ULL)); return true;
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: fin(S, I, ovf(id, A(0), A(1))); return true;
        case Intrinsic::umin: fin(S, I, minmax(CmpInst::ICMP_ULT, A(0), A(1))); return true; case Intrinsic::umax: fin(S, I, minmax(CmpInst::ICMP_UGT, A(0), A(1))); return true; case Intrinsic::smin: fin(S, I, minmax(CmpInst::ICMP_SLT, A(0), A(1))); return true; case Intrinsic::smax: fin(S, I, minmax(CmpInst::ICMP_SGT, A(0), A(1))); return true;
        case Intrinsic::abs: { Val a = A(0); Val n = binop(Instruction::Sub, mkC(a.w, 0), a, nullptr); Val c = icmp(CmpInst::ICMP_SLT, a, mkC(a.w, 0)); fin(S, I, c.conc() ? ((c.c & 1) ? n : a) : iteVal(toBool(c), n, a)); return true; }
        case Intrinsic::usub_sat: { Val a = A(0), b = A(1); Val c = icmp(CmpInst::ICMP_ULT, a, b), d = binop(Instruction::Sub, a, b, nullptr); fin(S, I, c.conc() ? ((c.c & 1) ? mkC(a.w, 0) : d) : iteVal(toBool(c), mkC(a.w, 0), d)); return true; }
        case Intrinsic::uadd_sat: { Val a = A(0), b = A(1); Val d = binop(Instruction::Add, a, b, nullptr), c = icmp(CmpInst::ICMP_ULT, d, a); fin(S, I, c.conc() ? ((c.c & 1) ? mkC(a.w, ~0ULL) : d) : iteVal(toBool(c), mkC(a.w, ~0ULL), d)); return true; }
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: fin(S, I, bitcount(id, A(0))); return true;
        case Intrinsic::bswap: { Val v = A(0); if (v.conc()) { u64 r = 0; for (unsigned i = 0; i < v.w / 8; i++) r |= ((v.c >> (8 * i)) & 255) << (v.w - 8 - 8 * i); fin(S, I, mkC(v.w, r)); } else { Z3_ast x = toBV(v), acc = nullptr; for (unsigned i = 0; i < v.w / 8; i++) { Z3_ast b = Z3_mk_extract(C, i * 8 + 7, i * 8, x); acc = acc ? Z3_mk_concat(C, acc, b) : b; } fin(S, I, foldBV(v.w, acc)); } return true; }
        case Intrinsic::fshl: fin(S, I, funnel(true, A(0), A(1), A(2))); return true; case Intrinsic::fshr: fin(S, I, funnel(false, A(0), A(1), A(2))); return true;
        case Intrinsic::is_fpclass: fin(S, I, fpclass(A(0), cast<ConstantInt>(I->getArgOperand(1))->getZExtValue())); return true;
#define FP1(x, n) case Intrinsic::x: { Val r = fpFun(S, n, A(0), nullptr, nullptr); fin(S, I, r); return true; }
#define FP2(x, n) case Intrinsic::x: { Val b = A(1); Val r = fpFun(S, n, A(0), &b, nullptr); fin(S, I, r); return true; }
        FP1(fabs, "fabs") FP1(sqrt, "sqrt") FP1(floor, "floor") FP1(ceil, "ceil") FP1(trunc, "trunc") FP1(rint, "rint") FP1(nearbyint, "nearbyint") FP1(round, "round") FP1(exp, "exp") FP1(log, "log") FP1(log10, "log10") FP1(log2, "log2") FP1(exp2, "exp2") FP1(sin, "sin") FP1(cos, "cos")
        FP2(copysign, "copysign") FP2(minnum, "fmin") FP2(maxnum, "fmax") FP2(pow, "pow")
        case Intrinsic::powi: { Val a = A(0), n = A(1); u64 k = concretize(S, n); i64 e = sxt(k, n.w); Val r = mkC(a.w, a.w == 64 ? fromD(1) : fromF(1)); for (i64 i = 0; i < std::abs(e); i++) r = fbin(Instruction::FMul, r, a); if (e < 0) r = fbin(Instruction::FDiv, mkC(a.w, a.w == 64 ? fromD(1) : fromF(1)), r); fin(S, I, r); return true; }
        case Intrinsic::fma: { Val b = A(1), c = A(2); fin(S, I, fpFun(S, "fma", A(0), &b, &c)); return true; } case Intrinsic::fmuladd: { Val b = A(1), c = A(2); fin(S, I, fpFun(S, "fmuladd", A(0), &b, &c)); return true; }
        case Intrinsic::eh_typeid_for: { Val t = A(0); fin(S, I, mkC(32, t.c & 0x7fffffff)); return true; }
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: viol("abort", "trap");
        case Intrinsic::vastart: {
            u64 ap = A(0).c; std::vector<Val>& va = f.varargs; u64 tot = 16; for (auto& v : va) tot += v.w > 64 ? 32 : 8; u64 area = allocate(S, tot, 's', "varargs"); f.allocas.push_back(area); u64 o = 0;
            for (auto& v : va) { if (v.w > 64) { o = (o + 15) & ~15ULL; storeC(S, area + o, v); o += 16; } else { storeC(S, area + o, v); o += 8; } }
            storeC(S, ap, mkC(32, 48)); storeC(S, ap + 4, mkC(32, 176)); storeC(S, ap + 8, mkC(64, area)); storeC(S, ap + 16, mkC(64, 0)); fin(S, I); return true; }
        case Intrinsic::vacopy: { u64 d = A(0).c, s = A(1).c; copyMem(S, d, s, 24); fin(S, I); return true; }
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: { Val v = A(0); unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_xor ? Instruction::Xor : Instruction::Mul; Val r = (*v.agg)[0]; for (size_t i = 1; i < v.agg->size(); i++) r = binop(op, r, (*v.agg)[i], nullptr); fin(S, I, r); return true; }
        case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: { Val r = A(0), v = A(1); for (auto& x : *v.agg) r = fbin(id == Intrinsic::vector_reduce_fadd ? Instruction::FAdd : Instruction::FMul, r, x); fin(S, I, r); return true; }
        default: return false;
    }
}

typedef std::function<void(State&, CallBase*, std::vector<Val>&)> Builtin;
static std::unordered_map<std::string, Builtin> builtins;
static void initBuiltins() {
    auto B = [&](const char* n, Builtin b) { builtins[n] = b; };
    // --- allocation
    auto mal = [&](char kind) { return [kind](State& S, CallBase* I, std::vector<Val>& a) { u64 n = concretize(S, a[0]); u64 p = heapAlloc(S, n, kind); fin(S, I, mkC(64, p)); }; };
    B("_Znwm", mal('n')); B("_Znam", mal('a')); B("malloc", mal('m')); B("_ZnwmRKSt9nothrow_t", mal('n')); B("_ZnwmSt11align_val_t", mal('n')); B("__cxa_allocate_exception", mal('e'));
    B("calloc", [](State& S, CallBase* I, std::vector<Val>& a) { u64 n = concretize(S, a[0]), m = concretize(S, a[1]); u64 p = heapAlloc(S, n * m, 'm'); setMem(S, p, mkC(8, 0), n * m); fin(S, I, mkC(64, p)); });
    auto fr = [&](char kind) { return [kind](State& S, CallBase* I, std::vector<Val>& a) { u64 p = concretize(S, a[0]); heapFree(S, p, kind); fin(S, I); }; };
    B("_ZdlPv", fr('n')); B("_ZdlPvm", fr('n')); B("_ZdaPv", fr('a')); B("_ZdaPvm", fr('a')); B("free", fr('m')); B("__cxa_free_exception", fr('e')); B("_ZdlPvSt11align_val_t", fr('n')); B("_ZdlPvmSt11align_val_t", fr('n'));
    // --- exceptions
    B("__cxa_throw", [](State& S, CallBase*, std::vector<Val>& a) { throwExc(S, a[0].c, a[1].c); });
    B("__cxa_begin_catch", [](State& S, CallBase* I, std::vector<Val>& a) { u64 o = concretize(S, a[0]); auto it = S.excObjs.find(o); if (it == S.excObjs.end()) unsup("catch of unknown exception"); S.caught.push_back(it->second); fin(S, I, mkC(64, o)); });
    B("__cxa_get_exception_ptr", [](State& S, CallBase* I, std::vector<Val>& a) { fin(S, I, a[0]); });
    B("__cxa_end_catch", [](State& S, CallBase* I, std::vector<Val>&) { if (S.caught.empty()) unsup("end_catch"); S.caught.pop_back(); fin(S, I); });
    B("__cxa_rethrow", [](State& S, CallBase*, std::vector<Val>&) { if (S.caught.empty()) viol("abort", "rethrow without an exception"); S.cur = S.caught.back(); unwind(S); });
    B("_ZSt9terminatev", [](State&, CallBase*, std::vector<Val>&) { viol("abort", "std::terminate"); }); B("abort", [](State&, CallBase*, std::vector<Val>&) { viol("abort", "abort()"); }); B("exit", [](State&, CallBase*, std::vector<Val>&) { viol("abort", "exit()"); });
    B("__cxa_pure_virtual", [](State&, CallBase*, std::vector<Val>&) { viol("abort", "pure virtual call"); }); B("__cxa_throw_bad_array_new_length", [](State&, CallBase*, std::vector<Val>&) { viol("uncaught exception", "bad_array_new_length"); });
    B("__assert_fail", [](State& S, CallBase*, std::vector<Val>& a) { viol("abort", "assert(" + cstr(S, a[0].c) + ")"); });
    B("__cxa_call_unexpected", [](State&, CallBase*, std::vector<Val>&) { viol("abort", "unexpected exception"); });
    B("__cxa_atexit", [](State& S, CallBase* I, std::vector<Val>&) { fin(S, I, mkC(32, 0)); });
    B("__cxa_guard_acquire", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = loadC(S, a[0].c, 8); if (v.conc() && v.c) fin(S, I, mkC(32, 0)); else fin(S, I, mkC(32, 1)); }); B("__cxa_guard_release", [](State& S, CallBase* I, std::vector<Val>& a) { storeC(S, a[0].c, mkC(8, 1)); fin(S, I); }); B("__cxa_guard_abort", [](State& S, CallBase* I, std::vector<Val>&) { fin(S, I); });
    B("_ZSt18uncaught_exceptionv", [](State& S, CallBase* I, std::vector<Val>&) { fin(S, I, mkC(1, 0)); }); B("_ZSt19uncaught_exceptionsv", [](State& S, CallBase* I, std::vector<Val>&) { fin(S, I, mkC(32, 0)); });
    // --- memory functions left as calls
    B("memcpy", [](State& S, CallBase* I, std::vector<Val>& a) { u64 n = concretize(S, a[2]); if (n) { u64 d = concretize(S, a[0]), s = concretize(S, a[1]); copyMem(S, d, s, n); } fin(S, I, a[0]); }); builtins["memmove"] = builtins["memcpy"];
    B("memset", [](State& S, CallBase* I, std::vector<Val>& a) { u64 n = concretize(S, a[2]); Val b = a[1]; if (b.conc()) b = mkC(8, b.c); else b = foldBV(8, Z3_mk_extract(C, 7, 0, toBV(b))); if (n) setMem(S, concretize(S, a[0]), b, n); fin(S, I, a[0]); });
    // --- libm
    for (const char* n : {"sqrt", "fabs", "floor", "ceil", "trunc", "round", "rint", "exp", "log", "log10", "log2", "sin", "cos", "tan", "acos", "asin", "atan", "cbrt", "exp2"}) { std::string s = n; auto b = [s](State& S, CallBase* I, std::vector<Val>& a) { Val r = fpFun(S, s, a[0], nullptr, nullptr); fin(S, I, r); }; builtins[s] = b; builtins[s + "f"] = b; builtins[s + "l"] = b; }
    for (const char* n : {"pow", "fmod", "fmin", "fmax", "copysign", "atan2"}) { std::string s = n; auto b = [s](State& S, CallBase* I, std::vector<Val>& a) { Val r = fpFun(S, s, a[0], &a[1], nullptr); fin(S, I, r); }; builtins[s] = b; builtins[s + "f"] = b; }
    B("ldexp", [](State& S, CallBase* I, std::vector<Val>& a) { i64 n = (i64)(int32_t)concretize(S, a[1]); u64 c; double m = std::ldexp(1.0, (int)n); memcpy(&c, &m, 8); fin(S, I, fbin(Instruction::FMul, a[0], mkC(64, c))); });
    B("hypotf", [](State& S, CallBase* I, std::vector<Val>& a) { Val r = fpFun(S, "sqrt", fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[0]), fbin(Instruction::FMul, a[1], a[1])), nullptr, nullptr); fin(S, I, r); });
    B("hypot", [](State& S, CallBase* I, std::vector<Val>& a) { Val r = fpFun(S, "sqrt", fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[0]), fbin(Instruction::FMul, a[1], a[1])), nullptr, nullptr); fin(S, I, r); });
    // --- harness interface
    B("sx_i64", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = newInput(S, cstr(S, a[0].c), 'i', 64); u64 lo = a[1].c, hi = a[2].c; Z3_ast q[2] = {Z3_mk_bvsle(C, bvNum(64, lo), v.a), Z3_mk_bvsle(C, v.a, bvNum(64, hi))}; if ((i64)lo != INT64_MIN || (i64)hi != INT64_MAX) assumeC(S, Z3_simplify(C, Z3_mk_and(C, 2, q))); fin(S, I, v); });
    B("sx_u8", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = newInput(S, cstr(S, a[0].c), 'i', 8); fin(S, I, v); });
    B("sx_u16", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = newInput(S, cstr(S, a[0].c), 'i', 16); fin(S, I, v); });
    B("sx_u32", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = newInput(S, cstr(S, a[0].c), 'i', 32); fin(S, I, v); });
    B("sx_u64", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = newInput(S, cstr(S, a[0].c), 'i', 64); fin(S, I, v); });
    B("sx_f64", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = newInput(S, cstr(S, a[0].c), optReal ? 'r' : 'd', 64); fin(S, I, v); });
    B("sx_f32", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = newInput(S, cstr(S, a[0].c), optReal ? 'r' : 'f', 32); fin(S, I, v); });
    B("sx_real", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = newInput(S, cstr(S, a[0].c), optReal ? 'r' : 'd', 64); Val c = binop(Instruction::And, fcmp(CmpInst::FCMP_OLE, a[1], v), fcmp(CmpInst::FCMP_OLE, v, a[2]), nullptr); assumeC(S, toBool(c)); fin(S, I, v); });
    B("sx_assume", [](State& S, CallBase* I, std::vector<Val>& a) { Val c = a[0].w == 1 ? a[0] : icmp(CmpInst::ICMP_NE, a[0], mkC(a[0].w, 0)); assumeC(S, Z3_simplify(C, toBool(c))); fin(S, I); });
    B("sx_assert", [](State& S, CallBase* I, std::vector<Val>& a) { Val c = a[0].w == 1 ? a[0] : icmp(CmpInst::ICMP_NE, a[0], mkC(a[0].w, 0)); doAssert(S, c, cstr(S, a[1].c)); fin(S, I); });
    B("sx_assert_close", [](State& S, CallBase* I, std::vector<Val>& a) {
        Z3_ast e = sameFP(a[0], a[1]); Z3_ast pref = nullptr;
        if (optReal && finC(a[0]) && finC(a[1])) { if (a[0].conc() && a[1].conc()) { double x = a[0].w == 64 ? asD(a[0].c) : asF(a[0].c), y = a[1].w == 64 ? asD(a[1].c) : asF(a[1].c); e = std::fabs(x - y) <= (a[0].w == 64 ? 1e-9 : 1e-4) * (1 + std::fabs(x) + std::fabs(y)) ? aTrue : aFalse; } else { Z3_ast x = toRL(a[0]), y = toRL(a[1]), xs[2] = {x, y}; Z3_ast d = Z3_mk_sub(C, 2, xs), m = Z3_mk_numeral(C, "1/50", sReal), q[2] = {Z3_mk_gt(C, d, m), Z3_mk_lt(C, d, Z3_mk_unary_minus(C, m))}; pref = Z3_mk_or(C, 2, q); } }
        doAssert(S, mkBool(e), cstr(S, a[2].c), pref); fin(S, I); });
    builtins["sx_assert_closef"] = builtins["sx_assert_close"];
    B("sx_same", [](State& S, CallBase* I, std::vector<Val>& a) { Z3_ast e = sameFP(a[0], a[1]); Val r = mkBool(e); fin(S, I, r.conc() ? mkC(32, r.c) : mkAst(K_BV, 32, Z3_mk_ite(C, e, bvNum(32, 1), bvNum(32, 0)))); }); builtins["sx_samef"] = builtins["sx_same"];
    B("sx_reach", [](State& S, CallBase* I, std::vector<Val>& a) { S.labels.push_back(cstr(S, concretize(S, a[0]))); fin(S, I); });
    B("sx_memsym", [](State& S, CallBase* I, std::vector<Val>& a) { u64 p = a[0].c, n = a[1].c; bool sy = false; if (n) { MemObj* o = checkAccess(S, p, n, false); if (!o->s.empty()) for (u64 i = 0; i < n; i++) if (o->s[p - o->base + i]) sy = true; } fin(S, I, mkC(32, sy)); });
    B("sx_memeq", [](State& S, CallBase* I, std::vector<Val>& a) { // equality of two memory ranges; bytes never written compare equal
        u64 p = a[0].c, q = a[1].c, n = a[2].c; std::vector<Z3_ast> e; bool eq = true; auto tok = [&](u64 x) -> uint32_t { MemObj* o = checkAccess(S, x, 1, false); return o->s.empty() ? 0 : o->s[x - o->base]; };
        for (u64 i = 0; i < n && eq;) { uint32_t t = tok(p + i), u = tok(q + i); if (t == 1 || u == 1) { i++; continue; }
            if (!t && !u) { eq = loadC(S, p + i, 8).c == loadC(S, q + i, 8).c; i++; continue; }
            uint32_t k = t ? t : u; unsigned w = valTable[k >> 4].w; unsigned m = (w + 7) / 8; if ((k & 15) != 0 || i + m > n) { w = 8; m = 1; }
            Val x = loadC(S, p + i, w), y = loadC(S, q + i, w); i += m; if (x.a && x.a == y.a) continue;
            Z3_ast c = x.k == K_RL || y.k == K_RL || x.k == K_FP || y.k == K_FP ? sameFP(x, y) : Z3_simplify(C, Z3_mk_eq(C, toBV(x), toBV(y))); Val b = mkBool(c); if (b.conc()) { if (!b.c) eq = false; } else e.push_back(c); }
        if (!eq) { fin(S, I, mkC(32, 0)); return; } if (e.empty()) { fin(S, I, mkC(32, 1)); return; }
        Z3_ast c = Z3_mk_and(C, e.size(), e.data()); fin(S, I, mkAst(K_BV, 32, Z3_mk_ite(C, c, bvNum(32, 1), bvNum(32, 0)))); });
    B("sx_symbolic_f64", [](State& S, CallBase* I, std::vector<Val>& a) { fin(S, I, mkC(32, !a[0].conc())); }); builtins["sx_symbolic_i64"] = builtins["sx_symbolic_f64"]; builtins["sx_symbolic_f32"] = builtins["sx_symbolic_f64"];
    B("sx_pick", [](State& S, CallBase* I, std::vector<Val>& a) { u64 v = concretize(S, a[0]); fin(S, I, mkC(64, v)); });
    B("sx_in_engine", [](State& S, CallBase* I, std::vector<Val>&) { fin(S, I, mkC(32, 1)); });
    B("sx_lib_assert", [](State& S, CallBase*, std::vector<Val>& a) { viol("abort", "standard library precondition violated: " + cstr(S, a[0].c)); });
    B("sx_unsupported", [](State& S, CallBase*, std::vector<Val>& a) { unsup(cstr(S, a[0].c)); });
    B("sx_print", [](State& S, CallBase* I, std::vector<Val>& a) { if (optVerbose) fprintf(stderr, "PRINT %s\n", cstr(S, a[0].c).c_str()); fin(S, I); });
    B("sx_bits_f64", [](State& S, CallBase* I, std::vector<Val>& a) { Val v = a[0]; if (!v.conc()) v = mkAst(K_BV, v.w, toBV(v)); fin(S, I, v); });
    // raw copy of a possibly symbolic double as an integer register (keeps the term)
    B("sx_fmt", [](State& S, CallBase* I, std::vector<Val>& a) { // int sx_fmt(char* buf, int cap, const char* fmt, double v)
        if (!a[3].conc()) unsup("formatting a symbolic number"); char b[512]; int n = snprintf(b, sizeof b, cstr(S, a[2].c).c_str(), asD(a[3].c)); u64 cap = a[1].c; for (int i = 0; i <= n && (u64)i < cap; i++) storeC(S, a[0].c + i, mkC(8, i == n ? 0 : (uint8_t)b[i])); fin(S, I, mkC(32, n)); });
    B("sx_parse", [](State& S, CallBase* I, std::vector<Val>& a) { std::string s = cstr(S, a[0].c); fin(S, I, mkC(64, fromD(strtod(s.c_str(), nullptr)))); });
}
static void doCall(State& S, CallBase* I) {
    if (builtins.empty()) initBuiltins();
    Frame& f = S.st.back(); Value* cv = I->getCalledOperand(); Function* F = dyn_cast<Function>(cv->stripPointerCasts());
    if (!F) if (auto* al = dyn_cast<GlobalAlias>(cv->stripPointerCasts())) F = dyn_cast<Function>(al->getAliaseeObject());
    if (!F) {
        if (auto* ia = dyn_cast<InlineAsm>(cv)) { if (I->getType()->isVoidTy()) { fin(S, I); return; } unsup("inline asm " + ia->getAsmString()); }
        Val p = ev(S, f, cv); u64 a = concretize(S, p); auto it = addrFn.find(a); if (it == addrFn.end()) viol("memory", a < 4096 ? "call through a null function pointer" : "call through an invalid function pointer"); F = it->second; }
    if (F->isIntrinsic()) { if (doIntrinsic(S, I, F)) return; unsup("intrinsic " + F->getName().str()); }
    std::vector<Val> args; for (auto& u : I->args()) { if (u->getType()->isMetadataTy()) { args.push_back(Val()); continue; } args.push_back(ev(S, f, u)); }
    auto it = builtins.find(F->getName().str());
    if (it != builtins.end()) { it->second(S, I, args); return; }
    if (F->isDeclaration()) unsup("call to external function " + F->getName().str());
    pushFrame(S, F, args, true);
}
