// symex: a bounded symbolic executor for LLVM IR (clang 18) over Z3.
//
// Every path of the harness + library code is executed; inputs created by the sx_*
// functions are SMT variables, branches on symbolic conditions fork after asking the
// solver, and sx_assert(c) becomes the query "path condition and not c".
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/ADT/DenseMap.h>
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <chrono>
#include <functional>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
#include <csignal>
#include <sys/resource.h>

using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

// ---------------------------------------------------------------- options
static bool optReal = false, optLossy = true;
static double optMaxTime = 600; static u64 optMaxPaths = 2000000, optMaxInstPath = 400000000ULL;
static unsigned optQueryTO = 60000; static int optWitness = 3; static int optMaxViol = 4; static bool optVerbose = false;
static std::string optEntry = "sx_main", optOut = "";
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t0;

// ---------------------------------------------------------------- errors
struct Unsupported { std::string msg; };          // engine cannot go on: inconclusive
struct PathEnd { };                                // path silently finished (assume false...)
struct Violation { std::string kind, msg; };       // ends path with a violation
static void unsup(const std::string& m) { throw Unsupported{m}; }

// ---------------------------------------------------------------- Z3
static Z3_context C;
static std::string z3err; 
static void z3Handler(Z3_context c, Z3_error_code e) { z3err = Z3_get_error_msg(c, e); }
static inline void z3chk() { if (!z3err.empty()) { std::string m = z3err; z3err.clear(); unsup("z3: " + m); } }
static Z3_sort sBool, sReal, sF32, sF64, sInt; static Z3_ast rRNE, aTrue, aFalse, rRTZ, rRTN, rRTP, rRNA;
static std::map<unsigned, Z3_sort> bvSorts;
static Z3_sort bvs(unsigned w) { auto& s = bvSorts[w]; if (!s) s = Z3_mk_bv_sort(C, w); return s; }

enum Kind : uint8_t { K_CONC, K_BV, K_BOOL, K_FP, K_RL, K_AGG };
struct Val {
    Kind k = K_CONC; uint32_t w = 0; u64 c = 0, chi = 0; Z3_ast a = nullptr; std::shared_ptr<std::vector<Val>> agg;
    bool conc() const { return k == K_CONC; }
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline Val mkC(unsigned w, u64 v) { Val r; r.w = w; r.c = v & maskw(w); return r; }
static inline Val mkC128(unsigned w, u128 v) { Val r; r.w = w; r.c = (u64)v; r.chi = (u64)(v >> 64); if (w <= 64) { r.c &= maskw(w); r.chi = 0; } else if (w < 128) r.chi &= maskw(w - 64); return r; }
static inline u128 c128(const Val& v) { return ((u128)v.chi << 64) | v.c; }
static inline i64 sxt(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
static Val mkAst(Kind k, unsigned w, Z3_ast a) { Val r; r.k = k; r.w = w; r.a = a; return r; }
static Val mkBool(Z3_ast a) { if (a == aTrue) return mkC(1, 1); if (a == aFalse) return mkC(1, 0); return mkAst(K_BOOL, 1, a); }
static Z3_ast bvNum(unsigned w, u64 v) { if (w <= 64) return Z3_mk_unsigned_int64(C, v & maskw(w), bvs(w)); unsup("wide bv numeral"); return nullptr; }
static Z3_ast bvNum128(unsigned w, u128 v) {
    if (w <= 64) return bvNum(w, (u64)v);
    return Z3_mk_concat(C, bvNum(w - 64, (u64)(v >> 64)), bvNum(64, (u64)v));
}
static double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static float asF(u64 b) { uint32_t x = (uint32_t)b; float d; memcpy(&d, &x, 4); return d; }
static u64 fromD(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static u64 fromF(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

static bool isNumeral(Z3_ast a) { Z3_ast_kind k = Z3_get_ast_kind(C, a); return k == Z3_NUMERAL_AST; }
// simplify a BV/Bool term; fold to concrete when it is a numeral
static Val foldBV(unsigned w, Z3_ast a) {
    z3chk();
    a = Z3_simplify(C, a); z3chk();
    if (isNumeral(a) && w <= 64) { uint64_t v; if (Z3_get_numeral_uint64(C, a, &v)) return mkC(w, v); }
    return mkAst(K_BV, w, a);
}
static Val foldBool(Z3_ast a) { z3chk(); a = Z3_simplify(C, a); z3chk(); return mkBool(a); }

// ---- rationals for real mode: simplest rational within half an ulp of a double
static std::string ratOfDouble(double x) {
    if (std::isnan(x) || std::isinf(x)) unsup("non-finite constant in real mode");
    if (x == 0) return "0";
    bool neg = x < 0; x = std::fabs(x);
    char buf[2000];
    std::string s;
    if (x == std::floor(x) && x < 9e15) { snprintf(buf, sizeof buf, "%.0f", x); s = buf; }
    else if (x < 1e-30 || x >= 9e15) {
        // exact dyadic
        int e; double m = std::frexp(x, &e); u64 mi = (u64)std::ldexp(m, 53); e -= 53;
        while (!(mi & 1)) { mi >>= 1; e++; }
        s = std::to_string(mi);
        std::string p = "1"; int n = std::abs(e); 
        for (int i = 0; i < n; i++) { int carry = 0; for (int j = (int)p.size() - 1; j >= 0; j--) { int d = (p[j] - '0') * 2 + carry; p[j] = '0' + d % 10; carry = d / 10; } if (carry) p.insert(p.begin(), '0' + carry); }
        if (e >= 0) { // multiply mi * 2^e as string: use z3
            Z3_ast v = Z3_mk_mul(C, 2, std::vector<Z3_ast>{Z3_mk_numeral(C, s.c_str(), sReal), Z3_mk_numeral(C, p.c_str(), sReal)}.data());
            s = Z3_get_numeral_string(C, Z3_simplify(C, v));
        } else s += "/" + p;
    } else {
        long double lo = ((long double)x + (long double)std::nextafter(x, 0.0)) / 2, hi = ((long double)x + (long double)std::nextafter(x, INFINITY)) / 2;
        // simplest fraction in (lo,hi) through Stern-Brocot (continued fractions)
        std::function<void(long double, long double, long double&, long double&)> simp = [&](long double a, long double b, long double& n, long double& d) {
            long double f = floorl(a);
            if (f + 1 < b || (f == a)) { if (f == a) { n = f; d = 1; } else { n = f + 1; d = 1; } return; }
            long double n2, d2; simp(1 / (b - f), 1 / (a - f), n2, d2);
            n = f * n2 + d2; d = n2;
        };
        long double n, d; simp(lo, hi, n, d);
        if (n < 1e8L && d < 1e8L && (double)(n / d) == x) { snprintf(buf, sizeof buf, "%.0Lf/%.0Lf", n, d); s = buf; }
        else { int e; double m = std::frexp(x, &e); u64 mi = (u64)std::ldexp(m, 53); e -= 53; while (!(mi & 1)) { mi >>= 1; e++; }
            if (e >= 0 ) { snprintf(buf, sizeof buf, "%.0f", x); s = buf; } else if (-e < 120) { u128 p = (u128)1 << (-e); std::string ps; while (p) { ps.insert(ps.begin(), '0' + (int)(p % 10)); p /= 10; } s = std::to_string(mi) + "/" + ps; } else unsup("rational too small"); }
    }
    return (neg ? "-" : "") + s;
}
static Z3_ast rlNum(double d) { Z3_ast a = Z3_mk_numeral(C, ratOfDouble(d).c_str(), sReal); z3chk(); return a; }

static Z3_ast iteA(Z3_ast c, Z3_ast t, Z3_ast e) { if (t == e) return t; return Z3_mk_ite(C, c, t, e); }

// uninterpreted view of a real as bits and back
static Z3_func_decl fRBits64, fRBits32, fRound32; static std::unordered_set<unsigned> floatAsts; static std::unordered_map<unsigned, Val> rbitsBack; // ast id -> RL value
static Z3_ast toBV(const Val& v) {
    switch (v.k) {
        case K_CONC: return bvNum128(v.w, c128(v));
        case K_BV: return v.a;
        case K_BOOL: return iteA(v.a, bvNum(1, 1), bvNum(1, 0));
        case K_FP: { // a moved value keeps its bits, also those of NaN
            if (Z3_get_ast_kind(C, v.a) == Z3_APP_AST) { Z3_app ap = Z3_to_app(C, v.a); if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_FPA_TO_FP && Z3_get_app_num_args(C, ap) == 1) { Z3_ast x = Z3_get_app_arg(C, ap, 0); if (Z3_get_sort_kind(C, Z3_get_sort(C, x)) == Z3_BV_SORT) return x; } }
            return Z3_mk_fpa_to_ieee_bv(C, v.a); }
        case K_RL: { Z3_ast args[1] = {v.a}; Z3_ast r = Z3_mk_app(C, v.w == 64 ? fRBits64 : fRBits32, 1, args); rbitsBack[Z3_get_ast_id(C, r)] = v; return r; }
        default: unsup("toBV of aggregate");
    }
    return nullptr;
}
static Z3_ast toBool(const Val& v) {
    if (v.conc()) return (v.c & 1) ? aTrue : aFalse;
    if (v.k == K_BOOL) return v.a;
    if (v.k == K_BV && v.w == 1) return Z3_mk_eq(C, v.a, bvNum(1, 1));
    unsup("toBool"); return nullptr;
}
static Z3_ast toFP(const Val& v) {
    if (v.k == K_FP) return v.a;
    if (v.k == K_RL) unsup("real value in IEEE context");
    return Z3_mk_fpa_to_fp_bv(C, toBV(v), v.w == 64 ? sF64 : sF32);
}
static Z3_ast toRL(const Val& v) {
    if (v.k == K_RL) return v.a;
    if (v.conc()) return rlNum(v.w == 64 ? asD(v.c) : (double)asF(v.c));
    if (v.k == K_BV) { auto it = rbitsBack.find(Z3_get_ast_id(C, v.a)); if (it != rbitsBack.end()) return it->second.a; }
    if (v.k == K_BV && Z3_get_ast_kind(C, v.a) == Z3_APP_AST) { // memory never written: any number
        Z3_symbol y = Z3_get_decl_name(C, Z3_get_app_decl(C, Z3_to_app(C, v.a))); std::string n = Z3_get_symbol_kind(C, y) == Z3_STRING_SYMBOL ? Z3_get_symbol_string(C, y) : "";
        if (n.rfind("uninit!", 0) == 0 || n.rfind("undef!", 0) == 0) { Val r = mkAst(K_RL, v.w, Z3_mk_const(C, Z3_mk_string_symbol(C, ("real " + n).c_str()), sReal)); Z3_inc_ref(C, v.a); rbitsBack[Z3_get_ast_id(C, v.a)] = r; return r.a; } }
    unsup("bit pattern used as real"); return nullptr;
}
static Z3_ast nfTerm(Z3_ast a); static void sosAdd(Z3_ast, Z3_ast, Z3_ast); static void sosMul(Z3_ast, Z3_ast, Z3_ast);
static Val fromRL(unsigned w, Z3_ast a) {
    z3chk(); a = Z3_simplify(C, a); z3chk(); a = nfTerm(a);
    if (Z3_is_numeral_ast(C, a)) { // try exact double
        std::string s = Z3_get_numeral_string(C, a);
        if (s.find('/') == std::string::npos && s.size() < 15) { double d = atof(s.c_str()); if (w == 64) return mkC(64, fromD(d)); if ((double)(float)d == d) return mkC(32, fromF((float)d)); }
        else if (s.size() < 34) { size_t p = s.find('/'); if (p != std::string::npos && p < 16 && s.size() - p < 16) { double n = atof(s.substr(0, p).c_str()), d = atof(s.substr(p + 1).c_str()); u64 di = (u64)d; if ((di & (di - 1)) == 0) { double q = n / d; if (w == 64) return mkC(64, fromD(q)); if ((double)(float)q == q) return mkC(32, fromF((float)q)); } } }
    }
    return mkAst(K_RL, w, a);
}
static Val fromFP(unsigned w, Z3_ast a) { z3chk(); return mkAst(K_FP, w, a); }

// generic if-then-else on values
static Val iteVal(Z3_ast c, const Val& t, const Val& e) {
    if (c == aTrue) return t;
    if (c == aFalse) return e;
    if (t.k == K_AGG || e.k == K_AGG) { Val r; r.k = K_AGG; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < t.agg->size(); i++) r.agg->push_back(iteVal(c, (*t.agg)[i], (*e.agg)[i])); return r; }
    if (t.conc() && e.conc() && t.c == e.c && t.chi == e.chi) return t;
    if (t.k == e.k && t.a && t.a == e.a) return t;
    if (t.w == 1) return foldBool(Z3_mk_ite(C, c, toBool(t), toBool(e)));
    if (t.k == K_RL || e.k == K_RL) {
        bool ok = true; for (auto* v : {&t, &e}) if (v->conc()) { double d = v->w == 64 ? asD(v->c) : asF(v->c); if (!std::isfinite(d)) ok = false; }
        if (ok) return fromRL(t.w, Z3_mk_ite(C, c, toRL(t), toRL(e))); }
    if (t.k == K_FP || e.k == K_FP) return fromFP(t.w, Z3_mk_ite(C, c, toFP(t), toFP(e)));
    return mkAst(K_BV, t.w, Z3_mk_ite(C, c, toBV(t), toBV(e)));
}

// ---------------------------------------------------------------- memory
static std::vector<Val> valTable(1);
struct MemObj {
    u64 base, size; std::vector<uint8_t> c; std::vector<uint32_t> s; // s: 0 concrete, 1 uninit, else ((valTable index)<<4 | byte)+16
    bool alive = true, ro = false; char kind = 'g'; std::string name;
    void needS() { if (s.empty()) s.assign(size, 0); }
    uint32_t tag(u64 i) const { return s.empty() ? 0 : s[i]; }
};
typedef std::shared_ptr<MemObj> ObjP;

struct FnInfo { Function* f; DenseMap<const Value*, unsigned> idx; unsigned n = 0; };
static DenseMap<const Function*, FnInfo*> fnInfos;
static FnInfo* info(Function* f) {
    auto& p = fnInfos[f]; if (p) return p;
    p = new FnInfo; p->f = f; for (auto& a : f->args()) p->idx[&a] = p->n++;
    for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
    return p;
}
struct Frame { FnInfo* fi; BasicBlock* bb; BasicBlock::iterator pc; BasicBlock* prev = nullptr; std::vector<Val> regs; std::vector<u64> allocas; std::vector<Val> varargs; u64 vaSave = 0; };
struct SymIn { std::string key; char type; Z3_ast a; unsigned w; }; // named symbolic input
struct PCItem { Z3_ast a; };
struct ExcInfo { u64 obj = 0, ti = 0, dtor = 0; };
struct State {
    std::vector<Frame> st; std::map<u64, ObjP> mem; u64 nextAddr = 0; std::vector<Z3_ast> pc; Z3_model model = nullptr; 
    std::vector<SymIn> inputs; std::map<std::string, int> inCount; u64 insts = 0; std::vector<ExcInfo> caught; std::map<u64, ExcInfo> excObjs; ExcInfo cur; u64 allocSeq = 0;
    std::vector<std::string> labels; std::vector<std::string> notes; unsigned depth = 0; bool tainted = false; u64 sweepAt = 20000;
    void* operator new(size_t n) { return ::operator new(n); }
};
typedef std::unique_ptr<State> StateP;

// ---------------------------------------------------------------- statistics / results
static u64 nPaths = 0, nInsts = 0, nQueries = 0, nCacheHits = 0, nForks = 0, nOblig = 0, nDischarged = 0, nUnknown = 0, nModelHit = 0; static double solverTime = 0;
static std::map<std::string, u64> reach, fnExec; static std::vector<std::string> incomplete; static std::map<std::string, u64> oblByMsg;
struct Report { std::string kind, msg, loc; std::vector<std::pair<std::string, std::string>> model; bool tainted; };
static std::vector<Report> violations, witnesses; static std::map<std::string, int> violCount;
static std::map<const Function*, u64> fnCount;

// ---------------------------------------------------------------- solver
static std::unordered_map<unsigned, std::vector<unsigned>> varsCache; static std::unordered_map<unsigned, char> ufCache;
static const std::vector<unsigned>& varsOf(Z3_ast a) {
    unsigned id = Z3_get_ast_id(C, a); auto it = varsCache.find(id); if (it != varsCache.end()) return it->second;
    // iterative post order
    std::vector<Z3_ast> stack{a};
    while (!stack.empty()) {
        Z3_ast x = stack.back(); unsigned xi = Z3_get_ast_id(C, x);
        if (varsCache.count(xi)) { stack.pop_back(); continue; }
        if (Z3_get_ast_kind(C, x) != Z3_APP_AST) { varsCache[xi]; stack.pop_back(); continue; }
        Z3_app ap = Z3_to_app(C, x); unsigned n = Z3_get_app_num_args(C, ap); bool ready = true;
        for (unsigned i = 0; i < n; i++) { Z3_ast y = Z3_get_app_arg(C, ap, i); if (!varsCache.count(Z3_get_ast_id(C, y))) { stack.push_back(y); ready = false; } }
        if (!ready) continue;
        std::set<unsigned> s;
        if (n == 0) { if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_UNINTERPRETED) s.insert(xi); }
        else { for (unsigned i = 0; i < n; i++) { auto& v = varsCache[Z3_get_ast_id(C, Z3_get_app_arg(C, ap, i))]; s.insert(v.begin(), v.end()); }
            if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_UNINTERPRETED) s.insert(~0u); }
        varsCache[xi] = std::vector<unsigned>(s.begin(), s.end()); stack.pop_back();
    }
    return varsCache[id];
}
static void rootDefs(const std::vector<Z3_ast>& cs, std::vector<Z3_ast>& out); static bool extendModel(Z3_model& m, Z3_ast cond); static Z3_ast nfTerm(Z3_ast a); static Z3_ast nfCompare(Z3_ast x, Z3_ast y, int op); static bool isRootConst(Z3_func_decl d);
static void slicePC(const std::vector<Z3_ast>& pc, Z3_ast cond, std::vector<Z3_ast>& out) {
    std::unordered_set<unsigned> live; for (unsigned v : varsOf(cond)) live.insert(v);
    std::vector<char> in(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { auto& vs = varsOf(pc[i]); bool hit = false; for (unsigned v : vs) if (live.count(v)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; for (unsigned v : vs) live.insert(v); } } }
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
    std::vector<Z3_ast> all = out; all.push_back(cond); rootDefs(all, out);
}
static std::map<std::vector<unsigned>, int> qcache; // -1 unsat, 1 sat, 0 unknown
static std::map<std::vector<unsigned>, Z3_model> qmodel;
static int solveRaw(const std::vector<Z3_ast>& cs, Z3_model* m, unsigned to) {
    double t = now();
    Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), to);
    Z3_solver_set_params(C, s, p);
    for (Z3_ast a : cs) Z3_solver_assert(C, s, a);
    z3err.clear();
    Z3_lbool r = Z3_solver_check(C, s); nQueries++;
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? -1 : 0;
    if (!z3err.empty()) { z3err.clear(); if (res != -1) res = 0; }
    if (res == 1 && m) { *m = Z3_solver_get_model(C, s); if (*m) Z3_model_inc_ref(C, *m); else res = 0; z3err.clear(); }
    Z3_params_dec_ref(C, p); Z3_solver_dec_ref(C, s);
    double dt = now() - t; solverTime += dt;
    if (optVerbose && dt > 2) { fprintf(stderr, "[slow query %.1fs res=%d]\n", dt, res); }
    if (res == 0) nUnknown++;
    if (getenv("SX_DUMP") && dt > atof(getenv("SX_DUMP"))) { static int k = 0; std::ofstream f("/tmp/q" + std::to_string(k++) + ".smt2"); Z3_solver s2 = Z3_mk_solver(C); Z3_solver_inc_ref(C, s2); for (Z3_ast a : cs) Z3_solver_assert(C, s2, a); f << Z3_solver_to_string(C, s2) << "(check-sat)\n"; }
    return res;
}
static bool evalTrue(Z3_model m, Z3_ast a, bool* known) {
    if (!extendModel(m, a)) { *known = false; return false; }
    Z3_ast r; z3err.clear(); bool ok = Z3_model_eval(C, m, a, true, &r); if (!z3err.empty()) { z3err.clear(); ok = false; }
    if (!ok) { *known = false; return false; }
    if (r == aTrue) { *known = true; return true; } if (r == aFalse) { *known = true; return false; }
    r = Z3_simplify(C, r); *known = (r == aTrue || r == aFalse); z3err.clear(); return r == aTrue;
}
// merge: m2 overrides m1 on constants
static Z3_model mergeModels(Z3_model m1, Z3_model m2) {
    if (!m1) { Z3_model_inc_ref(C, m2); return m2; }
    Z3_model r = Z3_mk_model(C); Z3_model_inc_ref(C, r); std::set<Z3_func_decl> seen;
    for (Z3_model m : {m2, m1}) { unsigned n = Z3_model_get_num_consts(C, m); for (unsigned i = 0; i < n; i++) { Z3_func_decl d = Z3_model_get_const_decl(C, m, i); if (!seen.insert(d).second || (m == m1 && isRootConst(d))) continue; Z3_ast v = Z3_model_get_const_interp(C, m, d); if (v) Z3_add_const_interp(C, r, d, v); } }
    z3err.clear();
    return r;
}
static bool hasUF(Z3_ast a) { auto& v = varsOf(a); return !v.empty() && v.back() == ~0u; }
// is pc /\ cond satisfiable? returns 1/-1/0 ; on 1 gives merged model
static int check(State& S, Z3_ast cond, Z3_model* out, unsigned to = 0) {
    if (cond == aFalse) return -1;
    if (cond == aTrue && S.model) { if (out) { *out = S.model; Z3_model_inc_ref(C, *out); } return 1; }
    if (S.model && !hasUF(cond)) { bool known; if (evalTrue(S.model, cond, &known) && known) { nModelHit++; if (out) { *out = S.model; Z3_model_inc_ref(C, *out); } return 1; } }
    std::vector<Z3_ast> cs; slicePC(S.pc, cond, cs); cs.push_back(cond);
    std::vector<unsigned> key; for (Z3_ast a : cs) key.push_back(Z3_get_ast_id(C, a)); std::sort(key.begin(), key.end());
    auto it = qcache.find(key); Z3_model m = nullptr; int r;
    if (it != qcache.end()) { nCacheHits++; r = it->second; m = r == 1 ? qmodel[key] : nullptr; }
    else { r = solveRaw(cs, &m, to ? to : optQueryTO); if (r != 0) { qcache[key] = r; if (r == 1) qmodel[key] = m; } }
    if (r == 1 && out) *out = mergeModels(S.model, m);
    return r;
}
static void addPC(State& S, Z3_ast cond, Z3_model m = nullptr) {
    if (cond == aTrue) return;
    S.pc.push_back(cond);
    if (m) { S.model = m; }
    else if (S.model) { bool known; if (hasUF(cond) || !evalTrue(S.model, cond, &known) || !known) { Z3_model mm = nullptr; std::vector<Z3_ast> saved = S.pc; S.pc.pop_back(); int r = check(S, cond, &mm); S.pc = saved; if (r == 1) S.model = mm; else if (r == -1) throw PathEnd(); else { incomplete.push_back("solver gave no answer for a path condition"); throw PathEnd(); } } }
}

#include "poly.inc"
static bool isRootConst(Z3_func_decl d) { Z3_symbol y = Z3_get_decl_name(C, d); if (Z3_get_symbol_kind(C, y) != Z3_STRING_SYMBOL) return false; return !strncmp(Z3_get_symbol_string(C, y), "sqrt!", 5); }
// ---------------------------------------------------------------- globals
static Module* M; static const DataLayout* DL;
static DenseMap<const GlobalValue*, u64> gaddr; static std::unordered_map<u64, Function*> addrFn; static DenseMap<const Constant*, Val> constCache;
static std::vector<StateP> work; // DFS stack
static u64 undefCount = 0;

static Val freshBV(unsigned w, const char* pfx, bool* = nullptr) {
    std::string n = std::string(pfx) + "!" + std::to_string(undefCount++);
    return mkAst(K_BV, w, Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvs(w)));
}
static unsigned tw(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80;
    unsup("type width"); return 0;
}
static bool isAggT(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type* t) { if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements(); if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* aggT(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i); if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static u64 aggOff(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); return i * DL->getTypeAllocSize(aggT(t, i)).getFixedValue(); }
static Val mkAgg(std::vector<Val> v) { Val r; r.k = K_AGG; r.agg = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
static Val zeroOf(Type* t) { if (isAggT(t)) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(zeroOf(aggT(t, i))); return mkAgg(v); } return mkC(tw(t), 0); }
static Val undefOf(Type* t) {
    if (isAggT(t)) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(undefOf(aggT(t, i))); return mkAgg(v); }
    unsigned w = tw(t); if (w > 64) return mkC(w, 0);
    if (t->isFloatingPointTy()) { if (optReal) return mkAst(K_RL, w, Z3_mk_const(C, Z3_mk_string_symbol(C, ("undef!" + std::to_string(undefCount++)).c_str()), sReal)); return mkAst(K_FP, w, toFP(freshBV(w, "undef"))); }
    Val v = freshBV(w, "undef"); if (w == 1) return mkBool(toBool(v)); return v;
}

static Val cval(const Constant* c);
static Val binop(unsigned op, const Val& a, const Val& b, State* S);
static Val castop(unsigned op, const Val& v, Type* from, Type* to);
static Val gepConst(const GEPOperator* g, std::function<Val(const Value*)> ev) {
    Val base = ev(g->getPointerOperand());
    if (base.k == K_AGG) unsup("vector gep");
    i64 off = 0; Val acc = base; 
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        const Value* ix = it.getOperand();
        if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        Val v = ev(ix); u64 sz = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
        if (v.conc()) off += sxt(v.c, v.w) * (i64)sz;
        else { Z3_ast x = toBV(v); if (v.w < 64) x = Z3_mk_sign_ext(C, 64 - v.w, x); if (sz != 1) x = Z3_mk_bvmul(C, x, bvNum(64, sz)); acc = foldBV(64, Z3_mk_bvadd(C, toBV(acc), x)); }
    }
    if (acc.conc()) return mkC(64, acc.c + off);
    if (off) return foldBV(64, Z3_mk_bvadd(C, toBV(acc), bvNum(64, off)));
    return acc;
}
static Val cval(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return mkC(ci->getBitWidth(), ci->getZExtValue()); APInt v = ci->getValue(); if (ci->getBitWidth() <= 128) return mkC128(ci->getBitWidth(), ((u128)v.lshr(64).trunc(64).getZExtValue() << 64) | v.trunc(64).getZExtValue()); unsup("wide const"); }
    auto it = constCache.find(c); if (it != constCache.end()) return it->second;
    Val r;
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); unsigned w = v.getBitWidth(); if (w <= 64) r = mkC(w, v.getZExtValue()); else r = mkC128(w, ((u128)v.lshr(64).trunc(64).getZExtValue() << 64) | v.trunc(64).getZExtValue()); }
    else if (isa<ConstantPointerNull>(c)) r = mkC(64, 0);
    else if (auto* gv = dyn_cast<GlobalValue>(c)) { const GlobalValue* g = gv; if (auto* al = dyn_cast<GlobalAlias>(gv)) return cval(al->getAliasee()); auto f = gaddr.find(g); if (f == gaddr.end()) unsup("unknown global " + g->getName().str()); r = mkC(64, f->second); }
    else if (isa<ConstantAggregateZero>(c)) r = zeroOf(c->getType());
    else if (isa<UndefValue>(c)) return undefOf(c->getType());
    else if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(cval(ca->getOperand(i))); r = mkAgg(v); }
    else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(cval(cd->getElementAsConstant(i))); r = mkAgg(v); }
    else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        auto ev = [](const Value* v) { return cval(cast<Constant>(v)); };
        if (auto* g = dyn_cast<GEPOperator>(ce)) r = gepConst(g, ev);
        else if (ce->isCast()) r = castop(ce->getOpcode(), cval(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType());
        else if (Instruction::isBinaryOp(ce->getOpcode())) r = binop(ce->getOpcode(), cval(ce->getOperand(0)), cval(ce->getOperand(1)), nullptr);
        else if (ce->getOpcode() == Instruction::ICmp) { Val a = cval(ce->getOperand(0)), b = cval(ce->getOperand(1)); bool eq = a.c == b.c; r = mkC(1, ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq); }
        else unsup("constant expr " + std::string(ce->getOpcodeName()));
    } else unsup("constant kind");
    constCache[c] = r; return r;
}

// ---------------------------------------------------------------- integer ops
static Val binop(unsigned op, const Val& a, const Val& b, State*) {
    if (a.k == K_AGG) { std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(binop(op, (*a.agg)[i], (*b.agg)[i], nullptr)); return mkAgg(v); }
    unsigned w = a.w;
    if (a.conc() && b.conc()) {
        if (w <= 64) {
            u64 x = a.c, y = b.c; i64 sx = sxt(x, w), sy = sxt(y, w);
            switch (op) {
                case Instruction::Add: return mkC(w, x + y); case Instruction::Sub: return mkC(w, x - y); case Instruction::Mul: return mkC(w, x * y);
                case Instruction::UDiv: return mkC(w, x / y); case Instruction::URem: return mkC(w, x % y);
                case Instruction::SDiv: return mkC(w, (sy == -1) ? (u64)0 - (u64)sx : (u64)(sx / sy)); case Instruction::SRem: return mkC(w, sy == -1 ? 0 : (u64)(sx % sy));
                case Instruction::And: return mkC(w, x & y); case Instruction::Or: return mkC(w, x | y); case Instruction::Xor: return mkC(w, x ^ y);
                case Instruction::Shl: return mkC(w, y >= w ? 0 : x << y); case Instruction::LShr: return mkC(w, y >= w ? 0 : x >> y); case Instruction::AShr: return mkC(w, y >= w ? (sx < 0 ? ~0ULL : 0) : (u64)(sx >> y));
            }
        } else {
            u128 x = c128(a), y = c128(b);
            switch (op) {
                case Instruction::Add: return mkC128(w, x + y); case Instruction::Sub: return mkC128(w, x - y); case Instruction::Mul: return mkC128(w, x * y);
                case Instruction::And: return mkC128(w, x & y); case Instruction::Or: return mkC128(w, x | y); case Instruction::Xor: return mkC128(w, x ^ y);
                case Instruction::Shl: return mkC128(w, y >= w ? 0 : x << (unsigned)y); case Instruction::LShr: return mkC128(w, y >= w ? 0 : x >> (unsigned)y);
                case Instruction::UDiv: return mkC128(w, x / y); case Instruction::URem: return mkC128(w, x % y);
            }
        }
        unsup("concrete binop");
    }
    if (w == 1) {
        Z3_ast x = toBool(a), y = toBool(b), args[2] = {x, y};
        switch (op) { case Instruction::And: case Instruction::Mul: return foldBool(Z3_mk_and(C, 2, args)); case Instruction::Or: return foldBool(Z3_mk_or(C, 2, args)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return foldBool(Z3_mk_xor(C, x, y)); }
        unsup("i1 binop");
    }
    Z3_ast x = toBV(a), y = toBV(b), r = nullptr;
    switch (op) {
        case Instruction::Add: r = Z3_mk_bvadd(C, x, y); break; case Instruction::Sub: r = Z3_mk_bvsub(C, x, y); break; case Instruction::Mul: r = Z3_mk_bvmul(C, x, y); break;
        case Instruction::UDiv: r = Z3_mk_bvudiv(C, x, y); break; case Instruction::URem: r = Z3_mk_bvurem(C, x, y); break; case Instruction::SDiv: r = Z3_mk_bvsdiv(C, x, y); break; case Instruction::SRem: r = Z3_mk_bvsrem(C, x, y); break;
        case Instruction::And: r = Z3_mk_bvand(C, x, y); break; case Instruction::Or: r = Z3_mk_bvor(C, x, y); break; case Instruction::Xor: r = Z3_mk_bvxor(C, x, y); break;
        case Instruction::Shl: r = Z3_mk_bvshl(C, x, y); break; case Instruction::LShr: r = Z3_mk_bvlshr(C, x, y); break; case Instruction::AShr: r = Z3_mk_bvashr(C, x, y); break;
        default: unsup("binop");
    }
    return foldBV(w, r);
}
static bool cmpConc(CmpInst::Predicate p, u128 x, u128 y, unsigned w) {
    auto sx = [&](u128 v) -> i128 { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m) - m); };
    switch (p) {
        case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y;
        case CmpInst::ICMP_SGT: return sx(x) > sx(y); case CmpInst::ICMP_SGE: return sx(x) >= sx(y); case CmpInst::ICMP_SLT: return sx(x) < sx(y); case CmpInst::ICMP_SLE: return sx(x) <= sx(y); default: unsup("icmp"); }
    return false;
}
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b);
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.k == K_AGG) { std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(icmp(p, (*a.agg)[i], (*b.agg)[i])); return mkAgg(v); }
    if (a.conc() && b.conc()) return mkC(1, cmpConc(p, c128(a), c128(b), a.w));
    if (a.k == K_RL && b.k == K_RL && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { Z3_ast e = Z3_mk_eq(C, a.a, b.a); return foldBool(p == CmpInst::ICMP_EQ ? e : Z3_mk_not(C, e)); }
    if (a.w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { Z3_ast e = Z3_mk_iff(C, toBool(a), toBool(b)); return foldBool(p == CmpInst::ICMP_EQ ? e : Z3_mk_not(C, e)); }
    if (b.conc() && (a.k == K_RL || (a.k == K_BV && rbitsBack.count(Z3_get_ast_id(C, a.a))))) { // the sign bit of a real
        i64 s = b.w == 64 ? (i64)b.c : b.w == 32 ? (i64)(int32_t)b.c : 7; Val z = mkC(a.w, 0); Val x = a.k == K_RL ? a : rbitsBack[Z3_get_ast_id(C, a.a)];
        if ((p == CmpInst::ICMP_SLT && s == 0) || (p == CmpInst::ICMP_SLE && s == -1)) return fcmp(CmpInst::FCMP_OLT, x, z);
        if ((p == CmpInst::ICMP_SGT && s == -1) || (p == CmpInst::ICMP_SGE && s == 0)) return fcmp(CmpInst::FCMP_OGE, x, z);
    }
    Z3_ast x = toBV(a), y = toBV(b), r;
    switch (p) {
        case CmpInst::ICMP_EQ: r = Z3_mk_eq(C, x, y); break; case CmpInst::ICMP_NE: r = Z3_mk_not(C, Z3_mk_eq(C, x, y)); break;
        case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(C, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(C, x, y); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(C, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(C, x, y); break;
        case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(C, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(C, x, y); break; case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(C, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(C, x, y); break;
        default: unsup("icmp"); r = nullptr;
    }
    return foldBool(r);
}

// ---------------------------------------------------------------- floating point ops
static bool finC(const Val& v) { if (!v.conc()) return true; return v.w == 64 ? std::isfinite(asD(v.c)) : std::isfinite(asF(v.c)); }
static Z3_ast lastDivisor = nullptr;
static Val fbin(unsigned op, const Val& a, const Val& b) {
    if (a.k == K_AGG) { std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(fbin(op, (*a.agg)[i], (*b.agg)[i])); return mkAgg(v); }
    unsigned w = a.w;
    if (a.conc() && b.conc() && w <= 64) {
        feclearexcept(FE_ALL_EXCEPT); u64 r;
        auto doit = [&](auto x, auto y) { volatile decltype(x) vx = x, vy = y; volatile decltype(x) q = 0; switch (op) { case Instruction::FAdd: q = vx + vy; break; case Instruction::FSub: q = vx - vy; break; case Instruction::FMul: q = vx * vy; break; case Instruction::FDiv: q = vx / vy; break; case Instruction::FRem: q = std::fmod(vx, vy); break; } return (decltype(x))q; };
        if (w == 64) r = fromD(doit(asD(a.c), asD(b.c))); else r = fromF(doit(asF(a.c), asF(b.c)));
        if (!optReal || !fetestexcept(FE_INEXACT)) return mkC(w, r);
    } else if (a.conc() && b.conc() && w == 80) {
        auto ld = [](const Val& v) { long double x = 0; u128 b = c128(v); memcpy(&x, &b, 10); return x; };
        long double x = ld(a), y = ld(b), q = 0; switch (op) { case Instruction::FAdd: q = x + y; break; case Instruction::FSub: q = x - y; break; case Instruction::FMul: q = x * y; break; case Instruction::FDiv: q = x / y; break; default: unsup("fp80"); }
        u128 o = 0; memcpy(&o, &q, 10); return mkC128(80, o);
    }
    if (w > 64) unsup("symbolic long double");
    if (optReal) {
        if (!finC(a) || !finC(b)) unsup("non-finite arithmetic in real mode");
        Z3_ast x = toRL(a), y = toRL(b), args[2] = {x, y};
        switch (op) {
            case Instruction::FAdd: { Val r = fromRL(w, Z3_mk_add(C, 2, args)); if (r.a) sosAdd(r.a, x, y); return r; } case Instruction::FSub: return fromRL(w, Z3_mk_sub(C, 2, args)); case Instruction::FMul: { Val r = fromRL(w, Z3_mk_mul(C, 2, args)); if (r.a) sosMul(r.a, x, y); return r; }
            case Instruction::FDiv: lastDivisor = y; return fromRL(w, Z3_mk_div(C, x, y)); }
        unsup("real frem");
    }
    Z3_ast x = toFP(a), y = toFP(b);
    auto canon = [&]() { if (Z3_get_ast_id(C, x) > Z3_get_ast_id(C, y)) std::swap(x, y); };
    switch (op) {
        case Instruction::FAdd: canon(); return fromFP(w, Z3_mk_fpa_add(C, rRNE, x, y));
        case Instruction::FSub: y = Z3_simplify(C, Z3_mk_fpa_neg(C, y)); canon(); return fromFP(w, Z3_mk_fpa_add(C, rRNE, x, y));
        case Instruction::FMul: canon(); return fromFP(w, Z3_mk_fpa_mul(C, rRNE, x, y));
        case Instruction::FDiv: return fromFP(w, Z3_mk_fpa_div(C, rRNE, x, y));
    }
    unsup("frem"); return Val();
}
static Val fneg(const Val& a) {
    if (a.k == K_AGG) { std::vector<Val> v; for (auto& x : *a.agg) v.push_back(fneg(x)); return mkAgg(v); }
    if (a.conc() && a.w <= 64) return mkC(a.w, a.c ^ (1ULL << (a.w - 1)));
    if (a.conc()) { Val r = a; r.chi ^= 0x8000; return r; }
    if (optReal) return fromRL(a.w, Z3_mk_unary_minus(C, toRL(a)));
    return fromFP(a.w, Z3_simplify(C, Z3_mk_fpa_neg(C, toFP(a))));
}
static long double ldOf(const Val& v) { long double x = 0; u128 b = c128(v); memcpy(&x, &b, 10); return x; }
static Val mkLD(long double q) { u128 o = 0; memcpy(&o, &q, 10); return mkC128(80, o); }
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.k == K_AGG) { std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(fcmp(p, (*a.agg)[i], (*b.agg)[i])); return mkAgg(v); }
    if (p == CmpInst::FCMP_TRUE) return mkC(1, 1); if (p == CmpInst::FCMP_FALSE) return mkC(1, 0);
    if (a.conc() && b.conc()) {
        long double x = a.w == 64 ? asD(a.c) : a.w == 32 ? asF(a.c) : ldOf(a), y = b.w == 64 ? asD(b.c) : b.w == 32 ? asF(b.c) : ldOf(b); bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (p) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_UNO: r = un; break; default: break; }
        return mkC(1, r);
    }
    if (optReal) {
        if (!finC(a) || !finC(b)) { // one side concrete non-finite, the other a finite real
            bool left = !finC(a); const Val& n = left ? a : b; double d = n.w == 64 ? asD(n.c) : asF(n.c); if (std::isnan(d)) { switch (p) { case CmpInst::FCMP_UEQ: case CmpInst::FCMP_UGT: case CmpInst::FCMP_UGE: case CmpInst::FCMP_ULT: case CmpInst::FCMP_ULE: case CmpInst::FCMP_UNE: case CmpInst::FCMP_UNO: return mkC(1, 1); default: return mkC(1, 0); } }
            Val z = mkC(64, fromD(0)), nn = mkC(64, fromD(d)); return left ? fcmp(p, nn, z) : fcmp(p, z, nn); }
        Z3_ast x = toRL(a), y = toRL(b);
        { int k = -1; bool neg = false; switch (p) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: k = 0; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: k = 0; neg = true; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: k = 1; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: k = 2; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: k = 3; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: k = 4; break; default: break; }
          if (k >= 0) { Z3_ast q = nfCompare(x, y, k); if (q) return foldBool(neg ? Z3_mk_not(C, q) : q); } }
        switch (p) {
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return foldBool(Z3_mk_eq(C, x, y)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return foldBool(Z3_mk_not(C, Z3_mk_eq(C, x, y)));
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return foldBool(Z3_mk_gt(C, x, y)); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return foldBool(Z3_mk_ge(C, x, y)); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return foldBool(Z3_mk_lt(C, x, y)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return foldBool(Z3_mk_le(C, x, y));
            case CmpInst::FCMP_ORD: return mkC(1, 1); case CmpInst::FCMP_UNO: return mkC(1, 0); default: unsup("fcmp"); }
    }
    Z3_ast x = toFP(a), y = toFP(b); auto N = [](Z3_ast q) { return Z3_mk_not(C, q); };
    switch (p) {
        case CmpInst::FCMP_OEQ: return foldBool(Z3_mk_fpa_eq(C, x, y)); case CmpInst::FCMP_UNE: return foldBool(N(Z3_mk_fpa_eq(C, x, y)));
        case CmpInst::FCMP_OGT: return foldBool(Z3_mk_fpa_gt(C, x, y)); case CmpInst::FCMP_OGE: return foldBool(Z3_mk_fpa_geq(C, x, y)); case CmpInst::FCMP_OLT: return foldBool(Z3_mk_fpa_lt(C, x, y)); case CmpInst::FCMP_OLE: return foldBool(Z3_mk_fpa_leq(C, x, y));
        case CmpInst::FCMP_UGT: return foldBool(N(Z3_mk_fpa_leq(C, x, y))); case CmpInst::FCMP_UGE: return foldBool(N(Z3_mk_fpa_lt(C, x, y))); case CmpInst::FCMP_ULT: return foldBool(N(Z3_mk_fpa_geq(C, x, y))); case CmpInst::FCMP_ULE: return foldBool(N(Z3_mk_fpa_gt(C, x, y)));
        default: break; }
    Z3_ast n2[2] = {Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y)}; Z3_ast un = Z3_mk_or(C, 2, n2);
    switch (p) {
        case CmpInst::FCMP_UNO: return foldBool(un); case CmpInst::FCMP_ORD: return foldBool(N(un));
        case CmpInst::FCMP_ONE: { Z3_ast q[2] = {N(un), N(Z3_mk_fpa_eq(C, x, y))}; return foldBool(Z3_mk_and(C, 2, q)); } case CmpInst::FCMP_UEQ: { Z3_ast q[2] = {un, Z3_mk_fpa_eq(C, x, y)}; return foldBool(Z3_mk_or(C, 2, q)); }
        default: unsup("fcmp"); }
    return Val();
}
static Val castop(unsigned op, const Val& v, Type* from, Type* to) {
    if (v.k == K_AGG && to->isVectorTy() && from->isVectorTy() && op != Instruction::BitCast) { std::vector<Val> r; for (auto& x : *v.agg) r.push_back(castop(op, x, from->getScalarType(), to->getScalarType())); return mkAgg(r); }
    if (op == Instruction::BitCast && (isAggT(from) || isAggT(to))) {
        if (from == to) return v;
        // via bytes, concrete or bv
        Z3_ast acc = nullptr; unsigned tot = 0; bool allc = true; u128 cv = 0;
        auto elems = isAggT(from) ? *v.agg : std::vector<Val>{v};
        for (auto& e : elems) { if (e.conc() && tot < 128) cv |= c128(e) << tot; else allc = false; Z3_ast b = toBV(e); acc = acc ? Z3_mk_concat(C, b, acc) : b; tot += e.w; }
        if (tot > 128) allc = false;
        auto part = [&](unsigned lo, unsigned w) { return allc ? mkC128(w, cv >> lo) : foldBV(w, Z3_mk_extract(C, lo + w - 1, lo, acc)); };
        if (!isAggT(to)) return part(0, tot);
        std::vector<Val> r; unsigned w = tw(to->getScalarType()); for (unsigned i = 0; i < aggN(to); i++) r.push_back(part(i * w, w)); return mkAgg(r);
    }
    unsigned wt = isAggT(to) ? 0 : tw(to), wf = v.w;
    switch (op) {
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
            if (wt == wf) return v;
            if (v.conc()) return mkC128(wt, c128(v));
            if (wt < wf) { if (v.k == K_BOOL) unsup("trunc bool"); if (wt == 1) return foldBool(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, toBV(v)), bvNum(1, 1))); return foldBV(wt, Z3_mk_extract(C, wt - 1, 0, toBV(v))); }
            if (v.k == K_BOOL) return mkAst(K_BV, wt, Z3_mk_ite(C, v.a, bvNum128(wt, 1), bvNum128(wt, 0)));
            return foldBV(wt, Z3_mk_zero_ext(C, wt - wf, toBV(v)));
        case Instruction::SExt:
            if (v.conc()) { if (wf <= 64 && wt <= 64) return mkC(wt, (u64)sxt(v.c, wf)); u128 m = (u128)1 << (wf - 1); return mkC128(wt, (c128(v) ^ m) - m); }
            if (v.k == K_BOOL) return mkAst(K_BV, wt, Z3_mk_ite(C, v.a, bvNum(wt, ~0ULL), bvNum(wt, 0)));
            return foldBV(wt, Z3_mk_sign_ext(C, wt - wf, toBV(v)));
        case Instruction::FPExt: case Instruction::FPTrunc:
            if (v.conc()) { long double x = wf == 64 ? asD(v.c) : wf == 32 ? asF(v.c) : ldOf(v); if (wt == 64) return mkC(64, fromD((double)x)); if (wt == 32) return mkC(32, fromF((float)x)); return mkLD(x); }
            if (wt > 64) unsup("symbolic long double");
            if (optReal) { Val r = v; r.w = wt; r.a = toRL(v); r.k = K_RL;
                if (op == Instruction::FPExt && wf == 32) floatAsts.insert(Z3_get_ast_id(C, r.a));
                // narrowing a value that did not come from a float is an unknown rounding
                if (op == Instruction::FPTrunc && wt == 32 && optLossy && !floatAsts.count(Z3_get_ast_id(C, r.a))) { Z3_ast args[1] = {r.a}; r.a = Z3_mk_app(C, fRound32, 1, args); }
                return r; }
            return fromFP(wt, Z3_simplify(C, Z3_mk_fpa_to_fp_float(C, rRNE, toFP(v), wt == 64 ? sF64 : sF32)));
        case Instruction::SIToFP: case Instruction::UIToFP:
            if (v.conc()) { long double x; if (op == Instruction::SIToFP) x = (long double)sxt(v.c, wf); else x = (long double)v.c; 
                if (wt == 80) return mkLD(x); if (wt == 64) return mkC(64, fromD(op == Instruction::SIToFP ? (double)sxt(v.c, wf) : (double)v.c)); return mkC(32, fromF(op == Instruction::SIToFP ? (float)sxt(v.c, wf) : (float)v.c)); }
            if (wt > 64) unsup("symbolic long double");
            if (optReal) return fromRL(wt, Z3_mk_int2real(C, Z3_mk_bv2int(C, toBV(v), op == Instruction::SIToFP)));
            if (op == Instruction::SIToFP) return fromFP(wt, Z3_mk_fpa_to_fp_signed(C, rRNE, toBV(v), wt == 64 ? sF64 : sF32));
            return fromFP(wt, Z3_mk_fpa_to_fp_unsigned(C, rRNE, toBV(v), wt == 64 ? sF64 : sF32));
        case Instruction::FPToSI: case Instruction::FPToUI:
            if (v.conc()) { long double x = wf == 64 ? asD(v.c) : wf == 32 ? asF(v.c) : ldOf(v); if (!(std::fabs(x) < 1.9e19L)) return mkC(wt, op == Instruction::FPToSI ? 1ULL << (wt - 1) : 0); if (op == Instruction::FPToSI) return mkC(wt, (u64)(i64)x); return mkC(wt, (u64)x); }
            if (optReal) { Z3_ast x = toRL(v); Z3_ast fl = Z3_mk_real2int(C, x); Z3_ast neg = Z3_mk_lt(C, x, Z3_mk_numeral(C, "0", sReal)); Z3_ast nf = Z3_mk_unary_minus(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x))); return mkAst(K_BV, wt, Z3_mk_int2bv(C, wt, Z3_mk_ite(C, neg, nf, fl))); }
            if (op == Instruction::FPToSI) return mkAst(K_BV, wt, Z3_mk_fpa_to_sbv(C, rRTZ, toFP(v), wt)); return mkAst(K_BV, wt, Z3_mk_fpa_to_ubv(C, rRTZ, toFP(v), wt));
    }
    unsup("cast"); return Val();
}

// ---------------------------------------------------------------- memory access
static std::string locOf(State& S) {
    std::string r; int n = 0;
    for (int i = (int)S.st.size() - 1; i >= 0 && n < 12; i--) {
        Instruction& I = *S.st[i].pc; const DebugLoc& dl = I.getDebugLoc();
        if (dl) { const DILocation* L = dl.get(); while (L && n < 12) { std::string f = L->getFilename().str(); r += (r.empty() ? "" : " <- ") + f.substr(f.rfind('/') + 1) + ":" + std::to_string(L->getLine()); n++; L = L->getInlinedAt(); } }
    }
    return r;
}
static MemObj* findObj(State& S, u64 addr) {
    auto it = S.mem.upper_bound(addr); if (it == S.mem.begin()) return nullptr; --it; MemObj* o = it->second.get();
    if (addr >= o->base && addr < o->base + (o->size ? o->size : 1)) return o; return nullptr;
}
static MemObj* writable(State& S, u64 base) { auto& p = S.mem[base]; if (p.use_count() > 1) p = std::make_shared<MemObj>(*p); return p.get(); }
[[noreturn]] static void viol(const std::string& k, const std::string& m) { throw Violation{k, m}; }
static MemObj* checkAccess(State& S, u64 addr, u64 n, bool wr) {
    if (n == 0) return nullptr;
    MemObj* o = findObj(S, addr);
    if (!o) viol("memory", addr < 4096 ? "null pointer access" : "access outside any object");
    if (!o->alive) viol("memory", std::string(o->kind == 's' ? "use of dead stack object" : "use after free"));
    if (addr + n > o->base + o->size) viol("memory", "access past the end of object of size " + std::to_string(o->size));
    if (wr && o->ro) viol("memory", "write to constant");
    return o;
}
static u64 allocate(State& S, u64 size, char kind, const std::string& name = "", bool init0 = false) {
    auto o = std::make_shared<MemObj>(); u64 a = (S.nextAddr + 15) & ~15ULL; o->base = a; o->size = size; o->kind = kind; o->name = name; o->c.assign(size, 0);
    if (!init0 && size) o->s.assign(size, 1);
    S.nextAddr = a + size + 64; S.mem[a] = o; return a;
}
static u64 uninitSeq = 0;
static Val byteVal(State& S, MemObj*& o, u64 off) { // single byte as Val(8)
    uint32_t t = o->tag(off); if (t == 0) return mkC(8, o->c[off]);
    if (t == 1) { Val f = freshBV(8, "uninit"); MemObj* w = writable(S, o->base); o = w; valTable.push_back(f); w->s[off] = (uint32_t)((valTable.size() - 1) << 4) + 0; return f; }
    const Val& v = valTable[t >> 4]; unsigned b = t & 15; if (v.w == 8) return v; if (v.conc()) return mkC128(8, c128(v) >> (b * 8));
    return foldBV(8, Z3_mk_extract(C, b * 8 + 7, b * 8, toBV(v)));
}
static Val loadC(State& S, u64 addr, unsigned w) {
    unsigned n = (w + 7) / 8; MemObj* o = checkAccess(S, addr, n, false); u64 off = addr - o->base;
    bool allc = true; if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { allc = false; break; }
    if (allc) { u128 v = 0; for (unsigned i = 0; i < n && i < 16; i++) v |= (u128)o->c[off + i] << (8 * i); return mkC128(w, v); }
    uint32_t t = o->s[off];
    if (t > 1 && (t & 15) == 0) { bool same = true; for (unsigned i = 1; i < n; i++) if (o->s[off + i] != t + i) { same = false; break; } const Val& v = valTable[t >> 4]; if (same && (v.w + 7) / 8 == n) { if (v.w == w) return v; if (w == 1) return mkBool(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, toBV(v)), bvNum(1, 1))); if (w < v.w) return foldBV(w, Z3_mk_extract(C, w - 1, 0, toBV(v))); } }
    bool allu = true; for (unsigned i = 0; i < n; i++) if (o->s[off + i] != 1) allu = false;
    if (allu && w % 8 == 0 && w <= 64) { Val f = freshBV(w, "uninit"); MemObj* wr = writable(S, o->base); valTable.push_back(f); for (unsigned i = 0; i < n; i++) wr->s[off + i] = (uint32_t)((valTable.size() - 1) << 4) + i; return f; }
    Z3_ast acc = nullptr; for (unsigned i = 0; i < n; i++) { Val b = byteVal(S, o, off + i); Z3_ast x = toBV(b); acc = acc ? Z3_mk_concat(C, x, acc) : x; }
    if (w == 1) return foldBool(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, acc), bvNum(1, 1)));
    if (w < n * 8) acc = Z3_mk_extract(C, w - 1, 0, acc);
    return foldBV(w, acc);
}
static void storeC(State& S, u64 addr, const Val& v0) {
    Val v = v0; unsigned n = (v.w + 7) / 8; MemObj* o = checkAccess(S, addr, n, true); o = writable(S, o->base); u64 off = addr - o->base;
    if (v.conc()) { u128 x = c128(v); for (unsigned i = 0; i < n; i++) { o->c[off + i] = (uint8_t)(x >> (8 * i)); if (!o->s.empty()) o->s[off + i] = 0; } return; }
    if (v.w == 1) v = mkAst(K_BV, 8, Z3_mk_ite(C, toBool(v), bvNum(8, 1), bvNum(8, 0)));
    else if (v.w % 8) v = mkAst(K_BV, n * 8, Z3_mk_zero_ext(C, n * 8 - v.w, toBV(v)));
    if (n > 16) unsup("wide store");
    o->needS(); valTable.push_back(v); u64 id = valTable.size() - 1; for (unsigned i = 0; i < n; i++) o->s[off + i] = (uint32_t)(id << 4) + i;
}
static u64 modelU64(Z3_model m, Z3_ast a) { Z3_ast r; if (!Z3_model_eval(C, m, a, true, &r)) unsup("model eval"); r = Z3_simplify(C, r); uint64_t v; if (!Z3_get_numeral_uint64(C, r, &v)) unsup("model value"); return v; }
struct Refork {};
static StateP cloneState(State& S) { nForks++; auto p = std::make_unique<State>(S); return p; }
static Z3_model anyModel(State& S) { if (S.model) return S.model; std::vector<Z3_ast> cs = S.pc; Z3_model m = nullptr; int r = solveRaw(cs, &m, optQueryTO); if (r != 1) { if (r == 0) incomplete.push_back("solver gave no answer for a path condition"); throw PathEnd(); } S.model = m; return m; }
// pick a value of v, fork the rest: the caller re-executes the instruction in the other state
static u64 concretize(State& S, const Val& v) {
    if (v.conc()) return v.c; Z3_ast a = toBV(v); Z3_model m = anyModel(S); u64 x = modelU64(m, a); Z3_ast eq = Z3_simplify(C, Z3_mk_eq(C, a, bvNum(v.w, x))); Z3_ast ne = Z3_simplify(C, Z3_mk_not(C, eq));
    Z3_model m2 = nullptr; int r = check(S, ne, &m2); if (r == 0) incomplete.push_back("solver gave no answer while enumerating a value at " + locOf(S));
    if (r == 1) { StateP o = cloneState(S); o->pc.push_back(ne); o->model = m2; work.push_back(std::move(o)); }
    if (eq != aTrue) S.pc.push_back(eq); 
    if (hasUF(eq)) { S.model = nullptr; }
    return x;
}
static bool enumVals(State& S, const Val& v, size_t maxn, std::vector<u64>& out) {
    Z3_ast a = toBV(v); State T; T.pc = S.pc; T.model = S.model; Z3_ast block = aTrue;
    for (;;) { Z3_model m = nullptr; int r = check(T, block == aTrue ? aTrue : Z3_simplify(C, block), &m); if (block == aTrue && r == 1) {} if (r == -1) return true; if (r == 0) { unsup("solver gave no answer while enumerating addresses"); }
        u64 x = modelU64(m, a); out.push_back(x); if (out.size() > maxn) return false; Z3_ast ne = Z3_mk_not(C, Z3_mk_eq(C, a, bvNum(v.w, x))); Z3_ast q[2] = {block, ne}; block = Z3_mk_and(C, 2, q); }
}
// symbolic address: make sure it stays within one object (fork otherwise), returns object base and feasible addresses
static void resolve(State& S, const Val& addr, unsigned n, bool wr, std::vector<u64>& addrs) {
    anyModel(S);
    if (!enumVals(S, addr, 48, addrs)) { addrs.clear(); addrs.push_back(concretize(S, addr)); return; }
    std::sort(addrs.begin(), addrs.end());
    // all addresses must hit the same live object, otherwise enumVals by forking
    MemObj* o0 = nullptr; bool bad = false;
    for (u64 a : addrs) { MemObj* o = findObj(S, a); if (!o || !o->alive || a + n > o->base + o->size || (wr && o->ro)) { bad = true; break; } if (!o0) o0 = o; else if (o != o0) { bad = true; break; } }
    for (size_t i = 1; i < addrs.size() && !bad; i++) if (addrs[i] - addrs[i - 1] < n) bad = true;
    if (bad) { u64 x = concretize(S, addr); addrs.assign(1, x); }
}
static Val loadS(State& S, const Val& addr, unsigned w) {
    if (addr.conc()) return loadC(S, addr.c, w);
    std::vector<u64> as; resolve(S, addr, (w + 7) / 8, false, as);
    Z3_ast a = toBV(addr); Val r = loadC(S, as[0], w); for (size_t i = 1; i < as.size(); i++) r = iteVal(Z3_mk_eq(C, a, bvNum(64, as[i])), loadC(S, as[i], w), r);
    return r;
}
static void storeS(State& S, const Val& addr, const Val& v) {
    if (addr.conc()) { storeC(S, addr.c, v); return; }
    std::vector<u64> as; resolve(S, addr, (v.w + 7) / 8, true, as);
    if (as.size() == 1) { storeC(S, as[0], v); return; }
    Z3_ast a = toBV(addr); for (u64 x : as) { Val old = loadC(S, x, v.w); storeC(S, x, iteVal(Z3_mk_eq(C, a, bvNum(64, x)), v, old)); }
}
static Val addOff(const Val& p, u64 off) { if (p.conc()) return mkC(64, p.c + off); if (!off) return p; return foldBV(64, Z3_mk_bvadd(C, p.a, bvNum(64, off))); }
static Val loadT(State& S, const Val& addr, Type* t) {
    if (isAggT(t)) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(loadT(S, addOff(addr, aggOff(t, i)), aggT(t, i))); return mkAgg(v); }
    Val v = loadS(S, addr, tw(t));
    if (t->isFloatingPointTy() && v.k == K_BV && v.w <= 64) { if (optReal) { auto it = rbitsBack.find(Z3_get_ast_id(C, v.a)); if (it != rbitsBack.end()) return it->second; } else return mkAst(K_FP, v.w, Z3_simplify(C, toFP(v))); }
    return v;
}
static void storeT(State& S, const Val& addr, const Val& v, Type* t) {
    if (isAggT(t)) { for (unsigned i = 0; i < aggN(t); i++) storeT(S, addOff(addr, aggOff(t, i)), (*v.agg)[i], aggT(t, i)); return; }
    storeS(S, addr, v);
}
static void copyMem(State& S, u64 d, u64 s, u64 n) {
    if (!n || d == s) { if (n) { checkAccess(S, d, n, true); } return; }
    MemObj* so = checkAccess(S, s, n, false); checkAccess(S, d, n, true); ObjP hold = S.mem[so->base]; u64 db = findObj(S, d)->base;
    std::vector<uint8_t> cb(so->c.begin() + (s - so->base), so->c.begin() + (s - so->base + n)); std::vector<uint32_t> sb; if (!so->s.empty()) sb.assign(so->s.begin() + (s - so->base), so->s.begin() + (s - so->base + n));
    hold.reset();
    MemObj* o = writable(S, db); memcpy(&o->c[d - o->base], cb.data(), n);
    bool any = false; for (auto x : sb) if (x) { any = true; break; }
    if (any || !o->s.empty()) { o->needS(); if (sb.empty()) memset(&o->s[d - o->base], 0, n * 4); else memcpy(&o->s[d - o->base], sb.data(), n * 4); }
}
static std::string cstr(State& S, u64 a) { std::string r; for (int i = 0; i < 100000; i++) { Val b = loadC(S, a + i, 8); if (!b.conc()) unsup("symbolic C string in engine builtin"); if (!b.c) break; r += (char)b.c; } return r; }

// ---------------------------------------------------------------- reporting
static std::string valueString(Z3_model m, const SymIn& in) {
    Z3_ast r; if (!Z3_model_eval(C, m, in.a, true, &r)) return "?"; r = Z3_simplify(C, r); z3err.clear(); char buf[64];
    if (in.type == 'i' || in.type == 'b') { uint64_t v = 0; Z3_get_numeral_uint64(C, r, &v); snprintf(buf, sizeof buf, "%lld", (long long)sxt(v, in.w)); return buf; }
    if (in.type == 'r') { // rational or algebraic -> double
        Z3_ast q = r; if (!Z3_is_numeral_ast(C, r)) { if (Z3_is_algebraic_number(C, r)) q = Z3_get_algebraic_number_lower(C, r, 20); } 
        z3err.clear(); double d = Z3_get_numeral_double(C, q); if (!z3err.empty()) { z3err.clear(); d = 0; }
        snprintf(buf, sizeof buf, "0x%016llx", (unsigned long long)fromD(d)); return buf; }
    if (in.type == 'd') { Z3_ast bv = Z3_simplify(C, Z3_mk_fpa_to_ieee_bv(C, r)); uint64_t v = 0; if (!Z3_get_numeral_uint64(C, bv, &v)) v = 0x7ff8000000000000ULL; z3err.clear(); snprintf(buf, sizeof buf, "0x%016llx", (unsigned long long)v); return buf; }
    if (in.type == 'f') { Z3_ast bv = Z3_simplify(C, Z3_mk_fpa_to_ieee_bv(C, r)); uint64_t v = 0; if (!Z3_get_numeral_uint64(C, bv, &v)) v = 0x7fc00000; z3err.clear(); snprintf(buf, sizeof buf, "0x%08llx", (unsigned long long)v); return buf; }
    return "?";
}
static void fillModel(State& S, Z3_model m, Report& R) { for (auto& in : S.inputs) R.model.push_back({in.key, valueString(m, in)}); }
static void reportViolation(State& S, Z3_model m, const std::string& kind, const std::string& msg) {
    std::string k = kind + ": " + msg; if (violCount[k]++ >= 3 || (int)violations.size() >= optMaxViol) return;
    Report R; R.kind = kind; R.msg = msg; R.loc = locOf(S); R.tainted = S.tainted; fillModel(S, m, R); violations.push_back(R); if (!R.tainted) optMaxTime = std::min(optMaxTime, now() - t0 + 90); // look a little further, then report
    if (optVerbose) fprintf(stderr, "VIOL %s at %s\n", k.c_str(), R.loc.c_str());
}
#include "exec.inc"
