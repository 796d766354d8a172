// Normal form of real terms: quotients of polynomials over atoms (inputs, square roots, opaque terms), at most one
// square root per monomial. Used to recognise perfect squares under square roots, to cancel denominators and to
// compare terms; everything it cannot settle goes to the solver unchanged.
#include <boost/multiprecision/cpp_int.hpp>
typedef boost::multiprecision::cpp_rational RQ; typedef boost::multiprecision::cpp_int RZ;
typedef std::vector<std::pair<int, int>> Mono;
struct MonoLess { bool operator()(const Mono& a, const Mono& b) const { // lex: true when a is the greater one (leading term first)
    size_t i = 0; for (; i < a.size() && i < b.size(); i++) { if (a[i].first != b[i].first) return a[i].first < b[i].first; if (a[i].second != b[i].second) return a[i].second > b[i].second; } return i < a.size(); } };
typedef std::map<Mono, RQ, MonoLess> Poly;
struct PolyTooBig {};
struct RatFn { Poly n; std::vector<std::pair<Poly, int>> d; };
struct Atom { Z3_ast ast; bool root = false; Poly arg; Z3_ast def = nullptr; };
static std::vector<Atom> atoms; static std::map<unsigned, int> atomOf; // ast id -> atom
static std::map<unsigned, int> rootOf; // ast id of a square root constant -> atom
static std::unordered_map<unsigned, RatFn> nfCache; static std::unordered_set<unsigned> nfBad;
static const size_t POLYMAX = 2000;
static void polyAdd(Poly& a, const Mono& m, const RQ& c) { if (c == 0) return; auto it = a.find(m); if (it == a.end()) { if (a.size() >= POLYMAX) throw PolyTooBig(); a.emplace(m, c); } else { it->second += c; if (it->second == 0) a.erase(it); } }
static Poly pConst(const RQ& c) { Poly p; if (c != 0) p[Mono()] = c; return p; }
static bool pIsConst(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
static RQ pConstVal(const Poly& p) { return p.empty() ? RQ(0) : p.begin()->second; }
static Poly pAdd(const Poly& a, const Poly& b, const RQ& f = 1) { Poly r = a; for (auto& t : b) polyAdd(r, t.first, t.second * f); return r; }
static Mono mMul(const Mono& a, const Mono& b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; } } return r; }
static bool mDiv(const Mono& a, const Mono& b, Mono& r) { r.clear(); size_t j = 0; for (auto& t : a) { int e = t.second; if (j < b.size() && b[j].first == t.first) { e -= b[j].second; j++; } else if (j < b.size() && b[j].first < t.first) return false; if (e < 0) return false; if (e) r.push_back({t.first, e}); } return j == b.size(); }
// product in the free ring, no reduction of roots
static Poly pMulFree(const Poly& a, const Poly& b) { if (a.size() * b.size() > 150000) throw PolyTooBig(); Poly r; for (auto& x : a) for (auto& y : b) polyAdd(r, mMul(x.first, y.first), x.second * y.second); return r; }
static bool pDivExact(const Poly& a, const Poly& b, Poly& q) { // a == b*q
    q.clear(); if (b.empty()) return false; if (pIsConst(b)) { for (auto& t : a) q[t.first] = t.second / b.begin()->second; return true; }
    if (a.size() > 2000) return false;
    Poly r = a; auto lb = b.begin(); int steps = 0; Mono m;
    while (!r.empty()) { auto lr = r.begin(); if (++steps > 2000 || !mDiv(lr->first, lb->first, m)) return false; RQ c = lr->second / lb->second; q[m] = c; for (auto& t : b) polyAdd(r, mMul(t.first, m), -(t.second * c)); }
    return true;
}
static Poly pMul(const Poly& a, const Poly& b);
static Z3_ast rqNum(const RQ& c) { Z3_ast a = Z3_mk_numeral(C, c.str().c_str(), sReal); z3chk(); return a; }
static Z3_ast monoAst(const Mono& m, const RQ& c) { std::vector<Z3_ast> f; if (c != 1 || m.empty()) f.push_back(rqNum(c)); for (auto& t : m) for (int i = 0; i < t.second; i++) f.push_back(atoms[t.first].ast); return f.size() == 1 ? f[0] : Z3_mk_mul(C, f.size(), f.data()); }
static Z3_ast polyAst(const Poly& p) { if (p.empty()) return Z3_mk_numeral(C, "0", sReal); std::vector<Z3_ast> s; for (auto& t : p) s.push_back(monoAst(t.first, t.second)); return s.size() == 1 ? s[0] : Z3_mk_add(C, s.size(), s.data()); }
static void pCollectVars(const Poly& p, std::set<unsigned>& s) { for (auto& t : p) for (auto& f : t.first) { auto& v = varsOf(atoms[f.first].ast); s.insert(v.begin(), v.end()); } }
// square root of a (non-negative) polynomial without root atoms as an atom
static std::map<std::string, int> rootByArg;
static int rootAtom(const Poly& arg) {
    std::string key; for (auto& t : arg) { for (auto& f : t.first) key += std::to_string(f.first) + "^" + std::to_string(f.second) + " "; key += ":" + t.second.str() + ";"; }
    auto it = rootByArg.find(key); if (it != rootByArg.end()) return it->second;
    Z3_ast s = Z3_mk_const(C, Z3_mk_string_symbol(C, ("sqrt!" + std::to_string(rootByArg.size())).c_str()), sReal); unsigned id = Z3_get_ast_id(C, s);
    Atom a; a.ast = s; a.root = true; a.arg = arg; Z3_ast ss[2] = {s, s}; Z3_ast q[2] = {Z3_mk_ge(C, s, Z3_mk_numeral(C, "0", sReal)), Z3_mk_eq(C, Z3_mk_mul(C, 2, ss), polyAst(arg))}; a.def = Z3_mk_and(C, 2, q);
    std::set<unsigned> vs{id}; pCollectVars(arg, vs); varsCache[id] = std::vector<unsigned>(vs.begin(), vs.end());
    atoms.push_back(a); int k = atoms.size() - 1; rootByArg[key] = k; atomOf[id] = k; rootOf[id] = k; return k;
}
static bool rqSqrtSplit(const RQ& c, RQ& outer, RQ& inner) { // c = outer^2 * inner
    RZ n = numerator(c), d = denominator(c); bool neg = n < 0; if (neg) n = -n; RZ v = n * d, o = 1; // n/d = n*d/d^2
    RZ s = boost::multiprecision::sqrt(v); if (s * s == v) { outer = RQ(s) / RQ(d); inner = neg ? -1 : 1; return true; }
    for (int p : {2, 3, 5, 7, 11, 13, 17, 19, 23}) { RZ pp = p * p; while (v % pp == 0) { v /= pp; o *= p; } }
    outer = RQ(o) / RQ(d); inner = RQ(neg ? -v : v); return true;
}
// perfect square test: p == r^2
static bool pSqrtExact(const Poly& p, Poly& r) {
    r.clear(); if (p.empty()) return true; if (p.size() > 300) return false;
    auto half = [](const Mono& m, Mono& h) { h.clear(); for (auto& t : m) { if (t.second & 1) return false; h.push_back({t.first, t.second / 2}); } return true; };
    Mono h; if (!half(p.begin()->first, h)) return false; RQ o, in; rqSqrtSplit(p.begin()->second, o, in); if (in != 1) return false;
    r[h] = o; Mono lead = h; RQ lc = o; Poly rest = p; rest.erase(rest.begin()); Mono m; int steps = 0;
    while (!rest.empty()) { if (++steps > 60) return false; if (!mDiv(rest.begin()->first, lead, m)) return false; RQ c = rest.begin()->second / (2 * lc); 
        MonoLess L; if (!L(lead, m)) return false; 
        for (auto& t : r) polyAdd(rest, mMul(t.first, m), -(2 * t.second * c)); polyAdd(rest, mMul(m, m), -(c * c)); r[m] = c; }
    return true;
}
static std::vector<Poly> knownFactors; // candidates when looking for square factors
// arg = outer^2 * inner; returns outer as polynomial (sign not determined) and inner
static void squareSplit(Poly p, Poly& outer, Poly& inner) {
    outer = pConst(1); if (p.empty()) { inner = p; return; }
    Poly r; 
    // content and common monomial
    Mono g = p.begin()->first; for (auto& t : p) { Mono h; size_t j = 0; for (auto& f : g) { int e = 0; for (auto& q : t.first) if (q.first == f.first) e = q.second; e = std::min(e, f.second); if (e) h.push_back({f.first, e}); } g = h; }
    Mono go; for (auto& f : g) if (f.second / 2) go.push_back({f.first, f.second / 2});
    if (!go.empty()) { Mono g2 = mMul(go, go), m; Poly q; for (auto& t : p) { mDiv(t.first, g2, m); q[m] = t.second; } p = q; Poly om; om[go] = 1; outer = om; }
    RQ lc = p.begin()->second < 0 ? -p.begin()->second : p.begin()->second; for (auto& t : p) t.second /= lc;
    // what is left, made monic: perfect square?
    if (p.begin()->second > 0 && pSqrtExact(p, r)) { outer = pMulFree(outer, r); p = pConst(1); }
    else for (int round = 0; round < 3; round++) { bool ch = false; for (auto& f : knownFactors) { if (pIsConst(f) || f.size() > p.size() * 2 + 4 || f.size() < 2) continue; Poly q1, q2; if (pDivExact(p, f, q1) && pDivExact(q1, f, q2)) { p = q2; outer = pMulFree(outer, f); ch = true; if (p.begin()->second > 0 && pSqrtExact(p, r)) { outer = pMulFree(outer, r); p = pConst(1); ch = false; break; } } } if (!ch) break; }
    if (!pIsConst(p)) for (auto& f : knownFactors) { Poly q; if (pDivExact(p, f, q) && !q.empty() && q.begin()->second > 0 && !pIsConst(q) && pSqrtExact(q, r)) { outer = pMulFree(outer, r); p = f; break; } }
    RQ o, in; if (pIsConst(p)) { rqSqrtSplit(lc * pConstVal(p), o, in); p = pConst(in); } else { rqSqrtSplit(lc, o, in); for (auto& t : p) t.second *= in; }
    for (auto& t : outer) t.second *= o; inner = p;
}
// reduce a monomial in the free ring to one with at most one root
static void addReduced(Poly& r, const Mono& m, const RQ& c) {
    int nroots = 0; bool high = false; for (auto& t : m) if (atoms[t.first].root) { nroots++; if (t.second > 1) high = true; }
    if (nroots == 0 || (nroots == 1 && !high)) { polyAdd(r, m, c); return; }
    Poly acc = pConst(c); Mono rest; std::vector<int> odd;
    for (auto& t : m) { if (!atoms[t.first].root) { rest.push_back(t); continue; } Poly a = atoms[t.first].arg; for (int i = 0; i < t.second / 2; i++) acc = pMulFree(acc, a); if (t.second & 1) odd.push_back(t.first); }
    Poly rm; rm[rest] = 1; acc = pMulFree(acc, rm);
    while (odd.size() > 1) { // sqrt(a)*sqrt(b)
        Poly a = atoms[odd[0]].arg, b = atoms[odd[1]].arg, q; 
        int ia = odd[0], ib = odd[1]; odd.erase(odd.begin(), odd.begin() + 2);
        bool done = false;
        for (int sw = 0; sw < 2 && !done; sw++) { if (sw) { std::swap(a, b); } if (!pIsConst(a) && pDivExact(b, a, q)) { // a*sqrt(q), a >= 0
                RQ o = 1, in; if (pIsConst(q)) { rqSqrtSplit(pConstVal(q), o, in); acc = pMulFree(acc, a); for (auto& t : acc) t.second *= o; if (in != 1) odd.push_back(rootAtom(pConst(in))); }
                else { acc = pMulFree(acc, a); odd.push_back(rootAtom(q)); } done = true; } }
        if (done) continue;
        if (pIsConst(a) || pIsConst(b)) { // a root of a number and a root of a polynomial
            Poly p = pMulFree(a, b); RQ lc = p.begin()->second, o, in; rqSqrtSplit(lc, o, in); for (auto& t : p) t.second = t.second / lc * in; for (auto& t : acc) t.second *= o;
            if (pIsConst(p) && pConstVal(p) == 1) continue; odd.push_back(rootAtom(p)); continue; }
        Poly p = pMulFree(a, b), o; 
        RQ lc = p.begin()->second, co, ci; rqSqrtSplit(lc, co, ci); for (auto& t : p) t.second = t.second / lc * ci; for (auto& t : acc) t.second *= co;
        odd.push_back(rootAtom(p)); (void)ia; (void)ib;
    }
    if (!odd.empty()) { Poly s; s[Mono{{odd[0], 1}}] = 1; acc = pMulFree(acc, s); }
    for (auto& t : acc) { int k = 0; bool hi = false; for (auto& f : t.first) if (atoms[f.first].root) { k++; if (f.second > 1) hi = true; } if (k > 1 || hi) addReduced(r, t.first, t.second); else polyAdd(r, t.first, t.second); }
}
static Poly pMul(const Poly& a, const Poly& b) { if (a.size() * b.size() > 150000) throw PolyTooBig(); Poly r; for (auto& x : a) for (auto& y : b) addReduced(r, mMul(x.first, y.first), x.second * y.second); return r; }
static void addFactor(std::vector<std::pair<Poly, int>>& d, const Poly& f, int e) { for (auto& x : d) if (x.first == f) { x.second += e; return; } d.push_back({f, e}); }
static void learnFactor(const Poly& f) { if (f.size() < 2 || knownFactors.size() >= 80) return; for (auto& k : knownFactors) if (k == f) return; knownFactors.push_back(f); }
// adds the monic polynomial p to a denominator, split by the factors seen so far
static void addSplit(std::vector<std::pair<Poly, int>>& d, Poly p, int e) {
    if (pIsConst(p)) return; 
    if (p.size() == 1) { for (auto& f : p.begin()->first) { Poly s; s[Mono{{f.first, 1}}] = 1; addFactor(d, s, f.second * e); } return; }
    for (size_t i = 0; i < knownFactors.size(); i++) { Poly q; if (knownFactors[i] != p && pDivExact(p, knownFactors[i], q)) { addFactor(d, knownFactors[i], e); addSplit(d, q, e); return; } }
    Mono g = p.begin()->first; for (auto& t : p) { Mono h; for (auto& f : g) { int x = 0; for (auto& q : t.first) if (q.first == f.first) x = q.second; x = std::min(x, f.second); if (x) h.push_back({f.first, x}); } g = h; }
    if (!g.empty()) { Poly gm; gm[g] = 1; Poly q; pDivExact(p, gm, q); addSplit(d, gm, e); addSplit(d, q, e); return; }
    learnFactor(p); addFactor(d, p, e);
}
static Mono commonMono(const Poly& p) { Mono g = p.begin()->first; for (auto& t : p) { Mono h; for (auto& f : g) { int x = 0; for (auto& q : t.first) if (q.first == f.first) x = q.second; x = std::min(x, f.second); if (x) h.push_back({f.first, x}); } g = h; } return g; }
static void rfCancel(RatFn& r) {
    if (r.n.empty()) { r.d.clear(); return; }
    for (size_t i = 0; i < r.d.size();) { Poly q; while (r.d[i].second > 0 && pDivExact(r.n, r.d[i].first, q)) { r.n = q; r.d[i].second--; } if (!r.d[i].second) r.d.erase(r.d.begin() + i); else i++; }
}
static RatFn rfMul(const RatFn& a, const RatFn& b) { RatFn r; RatFn x = a, y = b; // cancel across first
    for (int s = 0; s < 2; s++) { RatFn& u = s ? y : x; RatFn& v = s ? x : y; for (auto& f : v.d) { Poly q; while (f.second > 0 && pDivExact(u.n, f.first, q)) { u.n = q; f.second--; } } }
    if (!x.n.empty() && !y.n.empty()) { Mono gx = commonMono(x.n), gy = commonMono(y.n);
        for (auto& fx : gx) if (atoms[fx.first].root) for (auto& fy : gy) if (fy.first == fx.first) { // both carry the same root: its square is the argument, cancelled before expanding
            Poly s, q; s[Mono{{fx.first, 1}}] = 1; pDivExact(x.n, s, q); x.n = q; pDivExact(y.n, s, q); y.n = q; Poly ar = atoms[fx.first].arg; RQ lc = ar.begin()->second; for (auto& t : ar) t.second /= lc; for (auto& t : x.n) t.second *= lc;
            std::vector<std::pair<Poly, int>> fs; addSplit(fs, ar, 1);
            for (auto& f : fs) for (int i = 0; i < f.second; i++) { bool ok = false; for (auto* z : {&x, &y}) for (auto& dd : z->d) if (!ok && dd.second > 0 && dd.first == f.first) { dd.second--; ok = true; } if (!ok) { if (x.n.size() < y.n.size()) x.n = pMul(x.n, f.first); else y.n = pMul(y.n, f.first); } } } }
    r.n = pMul(x.n, y.n); for (auto* z : {&x, &y}) for (auto& f : z->d) if (f.second) addFactor(r.d, f.first, f.second); rfCancel(r); return r; }
static RatFn rfAdd(const RatFn& a, const RatFn& b, const RQ& sgn) { RatFn r; Poly na = a.n, nb = b.n; r.d = a.d;
    for (auto& f : b.d) { int ea = 0; for (auto& g : r.d) if (g.first == f.first) ea = g.second; if (f.second > ea) { for (int i = 0; i < f.second - ea; i++) na = pMul(na, f.first); addFactor(r.d, f.first, f.second - ea); } }
    for (auto& f : a.d) { int eb = 0; for (auto& g : b.d) if (g.first == f.first) eb = g.second; for (int i = 0; i < f.second - eb; i++) nb = pMul(nb, f.first); }
    r.n = pAdd(na, nb, sgn); rfCancel(r); return r; }
static RatFn rfInv(const RatFn& a) {
    RatFn r; r.n = pConst(1); for (auto& f : a.d) for (int i = 0; i < f.second; i++) r.n = pMul(r.n, f.first);
    Poly n = a.n; RQ lc = n.begin()->second; for (auto& t : n) t.second /= lc; for (auto& t : r.n) t.second /= lc;
    Mono g = commonMono(n);
    if (!g.empty()) { Poly gm, q; gm[g] = 1; pDivExact(n, gm, q); n = q;
        for (auto& f : g) { Poly s; s[Mono{{f.first, 1}}] = 1; if (!atoms[f.first].root) { addFactor(r.d, s, f.second); continue; }
            for (int i = 0; i < f.second; i++) { r.n = pMul(r.n, s); const Poly& ar = atoms[f.first].arg; RQ l2 = ar.begin()->second; Poly mon = ar; for (auto& t : mon) t.second /= l2; for (auto& t : r.n) t.second /= l2; addSplit(r.d, mon, 1); } } }
    addSplit(r.d, n, 1); rfCancel(r); return r; }
static int atomFor(Z3_ast t) { unsigned id = Z3_get_ast_id(C, t); auto it = atomOf.find(id); if (it != atomOf.end()) return it->second; Atom a; a.ast = t; atoms.push_back(a); return atomOf[id] = atoms.size() - 1; }
static size_t rfSize(const RatFn& r) { size_t n = r.n.size(); for (auto& f : r.d) n += f.first.size(); return n; }
static RatFn nfCompute(Z3_ast t);
static const RatFn& nf(Z3_ast t) {
    unsigned id = Z3_get_ast_id(C, t); auto it = nfCache.find(id); if (it != nfCache.end()) return it->second;
    RatFn r; try { r = nfCompute(t); } catch (PolyTooBig&) { nfBad.insert(id); r = RatFn(); r.n[Mono{{atomFor(t), 1}}] = 1; }
    return nfCache[id] = r;
}
static RatFn nfCompute(Z3_ast t) {
    RatFn r;
    if (Z3_is_numeral_ast(C, t)) { std::string s = Z3_get_numeral_string(C, t); r.n = pConst(RQ(s)); return r; }
    if (Z3_get_ast_kind(C, t) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(C, t); unsigned n = Z3_get_app_num_args(C, ap); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
        auto A = [&](unsigned i) { return Z3_get_app_arg(C, ap, i); };
        if (k == Z3_OP_ADD) { r = nf(A(0)); for (unsigned i = 1; i < n; i++) { RatFn b = nf(A(i)); r = rfAdd(r, b, 1); } return r; }
        if (k == Z3_OP_SUB) { r = nf(A(0)); for (unsigned i = 1; i < n; i++) { RatFn b = nf(A(i)); r = rfAdd(r, b, -1); } return r; }
        if (k == Z3_OP_UMINUS) { r = nf(A(0)); for (auto& x : r.n) x.second = -x.second; return r; }
        if (k == Z3_OP_MUL) { r = nf(A(0)); for (unsigned i = 1; i < n; i++) { RatFn b = nf(A(i)); r = rfMul(r, b); } return r; }
        if (k == Z3_OP_DIV) { RatFn b = nf(A(1)); if (!b.n.empty()) { RatFn a = nf(A(0)); return rfMul(a, rfInv(b)); } }
        if (k == Z3_OP_POWER) { int e; if (Z3_is_numeral_ast(C, A(1)) && Z3_get_numeral_int(C, A(1), &e) && e >= 1 && e <= 8) { RatFn b = nf(A(0)); r = b; for (int i = 1; i < e; i++) r = rfMul(r, b); return r; } }
    }
    r.n[Mono{{atomFor(t), 1}}] = 1; return r;
}
static Z3_ast rfAst(const RatFn& r) { Z3_ast n = polyAst(r.n); if (r.d.empty()) return n; std::vector<Z3_ast> f; for (auto& x : r.d) for (int i = 0; i < x.second; i++) f.push_back(polyAst(x.first)); Z3_ast d = f.size() == 1 ? f[0] : Z3_mk_mul(C, f.size(), f.data()); return Z3_mk_div(C, n, d); }
// development self-test (SX_NFCHECK=1): numeric comparison of a term and its normal form
static double numEval(Z3_ast t, std::unordered_map<unsigned, double>& memo, unsigned seed) {
    unsigned id = Z3_get_ast_id(C, t); auto it = memo.find(id); if (it != memo.end()) return it->second; double v = 0;
    auto ro = rootOf.find(id);
    if (ro != rootOf.end()) v = std::sqrt(numEval(polyAst(atoms[ro->second].arg), memo, seed));
    else if (Z3_is_numeral_ast(C, t)) v = RQ(Z3_get_numeral_string(C, t)).convert_to<double>();
    else { Z3_app ap = Z3_to_app(C, t); unsigned n = Z3_get_app_num_args(C, ap); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)); auto A = [&](unsigned i) { return numEval(Z3_get_app_arg(C, ap, i), memo, seed); };
        if (k == Z3_OP_ADD) for (unsigned i = 0; i < n; i++) v += A(i); else if (k == Z3_OP_SUB) { v = A(0); for (unsigned i = 1; i < n; i++) v -= A(i); } else if (k == Z3_OP_UMINUS) v = -A(0); else if (k == Z3_OP_MUL) { v = 1; for (unsigned i = 0; i < n; i++) v *= A(i); } else if (k == Z3_OP_DIV) v = A(0) / A(1); else if (k == Z3_OP_POWER) v = std::pow(A(0), A(1)); else v = 0.5 + ((id * 2654435761u + seed * 40503u) >> 8) % 1000 / 250.0; }
    return memo[id] = v; }
static void nfSelfTest(Z3_ast a, Z3_ast b) { for (unsigned s = 1; s < 4; s++) { std::unordered_map<unsigned, double> m; double x = numEval(a, m, s), y = numEval(b, m, s); if (std::isfinite(x) && std::isfinite(y) && std::fabs(x - y) > 1e-6 * (1 + std::fabs(x) + std::fabs(y))) { static int k = 0; if (k++ < 20) fprintf(stderr, "NF MISMATCH %g %g\n%s\n%s\n", x, y, Z3_ast_to_string(C, a), std::string(Z3_ast_to_string(C, b)).c_str()); } } }
static int optNF = 1; static bool nfCheck = getenv("SX_NFCHECK"); static u64 nNF = 0;
static Z3_ast nfTerm(Z3_ast a) { // shorter equivalent of a, or a itself
    if (!optNF || isNumeral(a)) return a; unsigned id = Z3_get_ast_id(C, a); bool known = nfCache.count(id); const RatFn& r = nf(a);
    if (nfBad.count(id) || rfSize(r) > 40) return a; 
    if (r.d.empty() && r.n.size() == 1 && r.n.begin()->first.size() == 1 && r.n.begin()->second == 1 && atoms[r.n.begin()->first[0].first].ast == a) return a;
    Z3_ast b = Z3_simplify(C, rfAst(r)); unsigned ib = Z3_get_ast_id(C, b); if (ib != id && !nfCache.count(ib)) nfCache[ib] = r; if (!known) nNF++; if (nfCheck && !known) nfSelfTest(a, b); return b; }
// terms known to be sums of squares (or roots of such): zero exactly when all the listed terms are
static std::unordered_map<unsigned, std::vector<Z3_ast>> sosOf, zerosOf; // zerosOf: same zeros, sign depends on the path
static void sosAdd(Z3_ast r, Z3_ast x, Z3_ast y) { if (isNumeral(r)) return; auto L = [](Z3_ast t, std::vector<Z3_ast>& o) { if (isNumeral(t)) { if (Z3_algebraic_is_neg(C, t)) return false; if (!Z3_algebraic_is_zero(C, t)) o.push_back(t); return true; } auto it = sosOf.find(Z3_get_ast_id(C, t)); if (it == sosOf.end()) return false; o.insert(o.end(), it->second.begin(), it->second.end()); return true; };
    unsigned id = Z3_get_ast_id(C, r); if (sosOf.count(id)) return; std::vector<Z3_ast> o; if (L(x, o) && L(y, o)) { std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); if (o.size() <= 12) sosOf[id] = o; } }
static void sosMul(Z3_ast r, Z3_ast x, Z3_ast y) { if (isNumeral(r)) return; unsigned id = Z3_get_ast_id(C, r); if (sosOf.count(id)) return;
    if (x == y) { sosOf[id] = {x}; return; }
    for (int s = 0; s < 2; s++) { if (isNumeral(x) && Z3_algebraic_is_pos(C, x)) { auto it = sosOf.find(Z3_get_ast_id(C, y)); if (it != sosOf.end()) { auto v = it->second; sosOf[id] = v; } return; } std::swap(x, y); } }
static Z3_ast nfCompare(Z3_ast x, Z3_ast y, int op);
static std::set<Poly> comparedPolys; // numerators already compared with zero: a repeated comparison is left to the path condition
static Poly monic(Poly m) { if (m.empty()) return m; RQ lc = m.begin()->second; for (auto& t : m) t.second /= lc; return m; }
static Z3_ast sosZero(Z3_ast t, bool signToo) { auto it = sosOf.find(Z3_get_ast_id(C, t)); if (it == sosOf.end()) { if (signToo) return nullptr; it = zerosOf.find(Z3_get_ast_id(C, t)); if (it == zerosOf.end()) return nullptr; } static std::set<Z3_ast> active; if (!active.insert(t).second) return nullptr; struct Done { Z3_ast t; ~Done() { active.erase(t); } } done{t};
    std::vector<Z3_ast> q; Z3_ast z = Z3_mk_numeral(C, "0", sReal); for (Z3_ast x : std::vector<Z3_ast>(it->second)) { Z3_ast c = nfCompare(x, z, 0); if (!c) c = Z3_mk_eq(C, x, z); q.push_back(c); } return Z3_simplify(C, Z3_mk_and(C, q.size(), q.data())); }
// a <op> 0 as a condition without division; returns null when the normal form is no help
static Z3_ast nfCompare(Z3_ast x, Z3_ast y, int op) { // op: 0 ==, 1 >, 2 >=, 3 <, 4 <=
    if (!optNF) return nullptr; if (isNumeral(y) && Z3_algebraic_is_zero(C, y)) { if (op == 3 && sosOf.count(Z3_get_ast_id(C, x))) return aFalse; if (op == 2 && sosOf.count(Z3_get_ast_id(C, x))) return aTrue; bool seen = false; try { RatFn a = nf(x); seen = comparedPolys.count(monic(a.n)); } catch (PolyTooBig&) { } if (!seen) { Z3_ast q = sosZero(x, op != 0); if (q) return op == 1 ? Z3_mk_not(C, q) : q; } }
    RatFn r; try { RatFn a = nf(x), b = nf(y); r = rfAdd(a, b, -1); } catch (PolyTooBig&) { return nullptr; }
    if (!r.n.empty()) comparedPolys.insert(monic(r.n));
    if (nfCheck) { Z3_ast q[2] = {x, y}; nfSelfTest(Z3_mk_sub(C, 2, q), rfAst(r)); }
    if (r.n.empty()) return (op == 0 || op == 2 || op == 4) ? aTrue : aFalse;
    Poly p = r.n; 
    if (pIsConst(p) && r.d.empty()) { int s = pConstVal(p) > 0 ? 1 : -1; return (op == 1 || op == 2) == (s > 0) && op != 0 ? aTrue : aFalse; }
    if (getenv("SX_NFTRACE")) { fprintf(stderr, "nfCompare op %d n %zu terms, d:", op, r.n.size()); for (auto& f : r.d) fprintf(stderr, " %zu^%d", f.first.size(), f.second); fprintf(stderr, " bad=%zu roots:", nfBad.size()); std::set<int> ro; for (auto& t : r.n) for (auto& f : t.first) if (atoms[f.first].root) ro.insert(f.first); for (int k : ro) fprintf(stderr, " #%d(%zu terms)", k, atoms[k].arg.size()); fprintf(stderr, "\n"); }
    if (rfSize(r) > 150) return nullptr;
    std::vector<Z3_ast> fs{polyAst(p)}; if (op != 0) for (auto& f : r.d) if (f.second & 1) fs.push_back(polyAst(f.first));
    Z3_ast v = fs.size() == 1 ? fs[0] : Z3_mk_mul(C, fs.size(), fs.data()), z = Z3_mk_numeral(C, "0", sReal);
    switch (op) { case 0: return Z3_mk_eq(C, v, z); case 1: return Z3_mk_gt(C, v, z); case 2: return Z3_mk_ge(C, v, z); case 3: return Z3_mk_lt(C, v, z); default: return Z3_mk_le(C, v, z); }
}
// definitions of the square roots occurring in a set of terms
static void rootDefs(const std::vector<Z3_ast>& cs, std::vector<Z3_ast>& out) { if (rootOf.empty()) return; std::set<int> got; std::vector<int> todo; for (Z3_ast a : cs) for (unsigned v : varsOf(a)) { auto it = rootOf.find(v); if (it != rootOf.end() && got.insert(it->second).second) out.push_back(atoms[it->second].def); } }
static bool extendModel(Z3_model& m, Z3_ast cond) { // gives the square roots in cond a value
    bool copied = false;
    for (unsigned v : varsOf(cond)) { auto it = rootOf.find(v); if (it == rootOf.end()) continue; Atom& at = atoms[it->second]; Z3_func_decl d = Z3_get_app_decl(C, Z3_to_app(C, at.ast)); z3err.clear(); if (Z3_model_has_interp(C, m, d)) continue;
        Z3_ast arg = polyAst(at.arg), xv; if (!Z3_model_eval(C, m, arg, true, &xv)) { z3err.clear(); return false; } xv = Z3_simplify(C, xv); if (!Z3_algebraic_is_value(C, xv) || Z3_algebraic_is_neg(C, xv)) { z3err.clear(); return false; }
        Z3_ast root = Z3_algebraic_root(C, xv, 2); if (!z3err.empty() || !root) { z3err.clear(); return false; }
        if (!copied) { Z3_model c = Z3_mk_model(C); Z3_model_inc_ref(C, c); unsigned n = Z3_model_get_num_consts(C, m); for (unsigned i = 0; i < n; i++) { Z3_func_decl dd = Z3_model_get_const_decl(C, m, i); Z3_ast vv = Z3_model_get_const_interp(C, m, dd); if (vv) Z3_add_const_interp(C, c, dd, vv); } m = c; copied = true; }
        Z3_add_const_interp(C, m, d, root); }
    return true;
}
