// Arithmetic on objects with traits acts on every attribute alone.
#include "common.h"
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <vector>
struct N { double a, b; }; MAKE_ATTRIBUTE_TRAIT(N, a, b);
struct F { float f; int i; long l; }; MAKE_ATTRIBUTE_TRAIT(F, l, f, i);
struct V { Vector<3, double> v; N n; double q; }; MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(V, v, n, q);
struct One { double x; }; MAKE_ATTRIBUTE_TRAIT(One, x);
struct Part { int skip; double x; N n; double y; Part() : skip(5), x(0), n{0, 0}, y(0) {} }; MAKE_ATTRIBUTE_TRAIT(Part, skip, x); MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Part, y, x, n);
struct G { int a; short b; long c; }; MAKE_ATTRIBUTE_TRAIT(G, a, b, c);
struct W { double a; std::vector<double> v; N n; }; MAKE_ATTRIBUTE_TRAIT(W, a, v, n);
#if CASE == 2
static double D() { return symReal("d", -8, 8); }
#elif CASE == 1
static double D() { return symReal("d", 17, 30); }
#else
static double D() { return sx_f64("d"); }
#endif
struct Six { double a; int b; N c; float d; Vector<2, double> e; double f; }; MAKE_ATTRIBUTE_TRAIT(Six, a, b, c, d, e, f);
static int I(int r) { return (int)sx_i64("i", -r, r); }
static void mk(N& o) { o.a = D(); o.b = D(); } static void mk(One& o) { o.x = D(); }
static void mk(F& o) {
#if CASE == 1
    o.f = sx_f32("f"); ASSUME(o.f >= 17 && o.f <= 30); o.i = (int)sx_i64("i", 17, 20); o.l = (long)sx_i64("i", 17, 20);
#else
    o.f = sx_f32("f"); o.i = I(30000); o.l = I(30000);
#endif
}
static void mk(V& o) { for (int i = 0; i < 3; i++) o.v[i] = D(); mk(o.n); o.q = D(); } static void mk(Part& o) { o.skip = I(1000); o.x = D(); mk(o.n); o.y = D(); }
static void mk(Six& o) { o.a = D(); o.b = I(30000); mk(o.c); o.d = sx_f32("f"); o.e[0] = D(); o.e[1] = D(); o.f = D(); }
static void mk(G& o) { o.a = I(1000000); o.b = (short)I(30000); o.c = I(1000000); }
template<class T> static T sym() { T o; mk(o); return o; }
// apply f(number, other) to every attribute
template<class O> static void each(double& r, const double& x, const double& y, O f) { r = f(x, y); } template<class O> static void each(float& r, const float& x, const float& y, O f) { r = f(x, y); } template<class O> static void each(int& r, const int& x, const int& y, O f) { r = f(x, y); } template<class O> static void each(long& r, const long& x, const long& y, O f) { r = f(x, y); }
template<class O> static void each(N& r, const N& x, const N& y, O f) { each(r.a, x.a, y.a, f); each(r.b, x.b, y.b, f); } template<class O> static void each(One& r, const One& x, const One& y, O f) { each(r.x, x.x, y.x, f); }
template<class O> static void each(F& r, const F& x, const F& y, O f) { each(r.f, x.f, y.f, f); each(r.i, x.i, y.i, f); each(r.l, x.l, y.l, f); }
template<class O> static void each(V& r, const V& x, const V& y, O f) { for (int i = 0; i < 3; i++) each(r.v[i], x.v[i], y.v[i], f); each(r.n, x.n, y.n, f); each(r.q, x.q, y.q, f); }
template<class O> static void each(Part& r, const Part& x, const Part& y, O f) { each(r.x, x.x, y.x, f); each(r.n, x.n, y.n, f); each(r.y, x.y, y.y, f); }
template<class O> static void each(Six& r, const Six& x, const Six& y, O f) { each(r.a, x.a, y.a, f); each(r.b, x.b, y.b, f); each(r.c, x.c, y.c, f); each(r.d, x.d, y.d, f); for (int i = 0; i < 2; i++) each(r.e[i], x.e[i], y.e[i], f); each(r.f, x.f, y.f, f); }
static bool same(double a, double b) { return sx_same(a, b); } static bool same(float a, float b) { return sx_samef(a, b); } static bool same(int a, int b) { return a == b; } static bool same(long a, long b) { return a == b; }
static void S(double a, double b, const char* w) { ASSERT(same(a, b), w); } static void S(float a, float b, const char* w) { ASSERT(same(a, b), w); } static void S(int a, int b, const char* w) { ASSERT(a == b, w); } static void S(long a, long b, const char* w) { ASSERT(a == b, w); }
static void S(const N& a, const N& b, const char* w) { S(a.a, b.a, w); S(a.b, b.b, w); } static void S(const One& a, const One& b, const char* w) { S(a.x, b.x, w); } static void S(const F& a, const F& b, const char* w) { S(a.f, b.f, w); S(a.i, b.i, w); S(a.l, b.l, w); }
static void S(const V& a, const V& b, const char* w) { for (int i = 0; i < 3; i++) S(a.v[i], b.v[i], w); S(a.n, b.n, w); S(a.q, b.q, w); } static void S(const Part& a, const Part& b, const char* w) { S(a.skip, b.skip, w); S(a.x, b.x, w); S(a.n, b.n, w); S(a.y, b.y, w); }
static void S(const Six& a, const Six& b, const char* w) { S(a.a, b.a, w); S(a.b, b.b, w); S(a.c, b.c, w); S(a.d, b.d, w); for (int i = 0; i < 2; i++) S(a.e[i], b.e[i], w); S(a.f, b.f, w); }
static void sk(Part& r, int s) { r.skip = s; } template<class T> static void sk(T&, int) {} // the attribute without traits is that of the object holding the result
static int gs(const Part& r) { return r.skip; } template<class T> static int gs(const T&) { return 0; }
#define OUT(e) ([&] { auto z = (e); sk(z, 0); return z; }())
template<class T> static void plusMinus() {
    const T x = sym<T>(), y = sym<T>(); T e, m = x, k = y; T xs = x, ys = y;
#define EXP(f) (each(e, x, y, [](auto p, auto q) { (void)p; (void)q; return f; }), sk(e, 0), e)
    S(OUT(x + y), EXP(p + q), "sum of constants"); S(OUT(m + k), EXP(p + q), "sum of variables"); S(OUT(x + k), EXP(p + q), "sum of a constant and a variable"); S(OUT(m + y), EXP(p + q), "sum of a variable and a constant"); S(OUT(T(x) + y), EXP(p + q), "sum of a temporary and a constant"); S(OUT(x + T(y)), EXP(p + q), "sum of a constant and a temporary"); S(OUT(T(x) + T(y)), EXP(p + q), "sum of temporaries"); S(OUT(m + T(y)), EXP(p + q), "sum of a variable and a temporary"); S(OUT(T(x) + k), EXP(p + q), "sum of a temporary and a variable");
    S(OUT(x - y), EXP(p - q), "difference of constants"); S(OUT(m - k), EXP(p - q), "difference of variables"); S(OUT(x - k), EXP(p - q), "difference of a constant and a variable"); S(OUT(m - y), EXP(p - q), "difference of a variable and a constant"); S(OUT(T(x) - y), EXP(p - q), "difference of a temporary and a constant"); S(OUT(x - T(y)), EXP(p - q), "difference of a constant and a temporary"); S(OUT(T(x) - T(y)), EXP(p - q), "difference of temporaries"); S(OUT(m - T(y)), EXP(p - q), "difference of a variable and a temporary"); S(OUT(T(x) - k), EXP(p - q), "difference of a temporary and a variable");
    S(m, xs, "operands are unchanged"); S(k, ys, "operands are unchanged");
    { T r = x; T& l = (r += y); EXP(p + q); sk(e, gs(x)); S(r, e, "addition in place"); ASSERT(&l == &r, "addition in place returns the object"); r = x; T& h = (r -= y); EXP(p - q); sk(e, gs(x)); S(r, e, "subtraction in place"); ASSERT(&h == &r, "subtraction in place returns the object"); r = x; r += r; each(e, x, x, [](auto p, auto q) { return p + q; }); sk(e, gs(x)); S(r, e, "addition of itself"); r = x; r -= T(y); EXP(p - q); sk(e, gs(x)); S(r, e, "subtraction of a temporary in place"); }
    S(OUT(-x), EXP(-p), "opposite of a constant"); S(OUT(-m), EXP(-p), "opposite of a variable"); S(OUT(-T(x)), EXP(-p), "opposite of a temporary"); S(m, xs, "operands are unchanged");
}
template<class T> static void timesObject() {
    const T x = sym<T>(), y = sym<T>(); T e, m = x, k = y; T xs = x, ys = y;
    S(OUT(x * y), EXP(p * q), "product of constants"); S(OUT(m * k), EXP(p * q), "product of variables"); S(OUT(T(x) * y), EXP(p * q), "product of a temporary and a constant"); S(OUT(x * T(y)), EXP(p * q), "product of a constant and a temporary"); S(OUT(T(x) * T(y)), EXP(p * q), "product of temporaries"); S(OUT(m * T(y)), EXP(p * q), "product of a variable and a temporary"); S(OUT(T(x) * k), EXP(p * q), "product of a temporary and a variable"); S(OUT(m * y), EXP(p * q), "product of a variable and a constant");
    { T r = x; T& l = (r *= y); EXP(p * q); sk(e, gs(x)); S(r, e, "product in place"); ASSERT(&l == &r, "product in place returns the object"); r = x; r *= r; each(e, x, x, [](auto p, auto q) { return p * q; }); sk(e, gs(x)); S(r, e, "product with itself"); }
    S(m, xs, "operands are unchanged"); S(k, ys, "operands are unchanged");
}
template<class T, class R> static void timesNumber(const R c) {
    const T x = sym<T>(), y = x; T e, m = x; T xs = x; R mc = c;
#define EXPC(f) (each(e, x, y, [c](auto p, auto q) { (void)p; (void)q; return f; }), sk(e, 0), e)
    S(OUT(x * c), EXPC(p * c), "constant times a number"); S(OUT(m * c), EXPC(p * c), "variable times a number"); S(OUT(m * mc), EXPC(p * c), "variable times a number"); S(OUT(T(x) * c), EXPC(p * c), "temporary times a number"); S(OUT(c * x), EXPC(p * c), "number times a constant"); S(OUT(mc * m), EXPC(p * c), "number times a variable"); S(OUT(c * T(x)), EXPC(p * c), "number times a temporary");
    { T r = x; T& l = (r *= c); EXPC(p * c); sk(e, gs(x)); S(r, e, "times a number in place"); ASSERT(&l == &r, "times a number in place returns the object"); }
    S(OUT(x / c), EXPC(p / c), "constant over a number"); S(OUT(m / mc), EXPC(p / c), "variable over a number"); S(OUT(T(x) / c), EXPC(p / c), "temporary over a number"); S(m, xs, "operands are unchanged");
}
template<class T> static void absolute() { const T x = sym<T>(), y = x; T e, m = x; struct A { static double o(double v) { return std::fabs(v); } static float o(float v) { return std::fabs(v); } static int o(int v) { return v < 0 ? -v : v; } static long o(long v) { return v < 0 ? -v : v; } }; S(OUT(abs(x)), EXP(A::o(p)), "absolute value of a constant"); S(OUT(abs(m)), EXP(A::o(p)), "absolute value of a variable"); S(m, x, "operands are unchanged"); S(OUT(abs(T(x))), EXP(A::o(p)), "absolute value of a temporary"); }
#define FUN(f) { S(OUT(f(x)), EXP(std::f(p)), #f " of a constant"); S(OUT(f(m)), EXP(std::f(p)), #f " of a variable"); S(m, x, "operands are unchanged"); S(OUT(f(T(x))), EXP(std::f(p)), #f " of a temporary"); }
template<class T> static void functions() { const T x = sym<T>(), y = x; T e, m = x; FUN(exp) FUN(log) FUN(log2) FUN(log10) FUN(sqrt) FUN(cbrt) }
template<class T, class R> static void power(const R c) { const T x = sym<T>(), y = x; T e, m = x;
    S(OUT(pow(x, c)), EXPC(std::pow((double)p, (double)c)), "power of a constant"); S(OUT(pow(m, c)), EXPC(std::pow((double)p, (double)c)), "power of a variable"); S(m, x, "operands are unchanged"); S(OUT(pow(T(x), c)), EXPC(std::pow((double)p, (double)c)), "power of a temporary"); }
template<class T, class R> static void powerOf(const R c) { const T x = sym<T>(), y = x; T e, m = x;
    S(OUT(pow(c, x)), EXPC(std::pow((double)c, (double)p)), "number to the power of a constant"); S(OUT(pow(c, m)), EXPC(std::pow((double)c, (double)p)), "number to the power of a variable"); S(m, x, "operands are unchanged"); S(OUT(pow(c, T(x))), EXPC(std::pow((double)c, (double)p)), "number to the power of a temporary"); }
typedef std::vector<double> L; static void put(L& l, double d) { l.push_back(d); } static void put(L& l, const N& n) { l.push_back(n.a); l.push_back(n.b); }
static void extremes(const L& l, double mx, double mn, double sm) { bool i = false, j = false; double s = l[0]; for (size_t k = 0; k < l.size(); k++) { ASSERT(mx >= l[k], "the maximum is not less than any value"); ASSERT(mn <= l[k], "the minimum is not greater than any value"); i |= mx == l[k]; j |= mn == l[k]; if (k) s += l[k]; } ASSERT(i, "the maximum is one of the values"); ASSERT(j, "the minimum is one of the values"); sx_assert_close(sm, s, "sum of all values"); }
void sx_main() {
#if CASE == 0
    switch (choose(8)) {
    case 0: plusMinus<N>(); timesObject<N>(); absolute<N>(); timesNumber<N>(D()); timesNumber<N>(I(1000)); break;
    case 1: plusMinus<F>(); timesObject<F>(); absolute<F>(); timesNumber<F>((int)sx_i64("c", 1, 50)); timesNumber<F>(-2); break;
    case 2: { static const double c[5] = {0.5, 3, -0.25, 49, 1e3}; timesNumber<F>(c[choose(5)]); break; }
    case 3: plusMinus<V>(); absolute<V>(); timesNumber<V>(D()); break;
    case 4: plusMinus<One>(); timesObject<One>(); absolute<One>(); timesNumber<One>(D()); break;
    case 5: plusMinus<Part>(); timesObject<Part>(); absolute<Part>(); timesNumber<Part>(D()); break;
    case 7: plusMinus<Six>(); absolute<Six>(); timesNumber<Six>((int)sx_i64("c", 1, 50)); break;
    case 6: { double d = D(); float f = sx_f32("f"); ASSERT(same(abs(d), std::fabs(d)), "absolute value of a number"); ASSERT(same(abs(f), std::fabs(f)), "absolute value of a number"); int i = I(1000); ASSERT(abs(i) == (i < 0 ? -i : i), "absolute value of a number"); Vector<3, double> v{D(), D(), D()}, a = abs(v); for (int k = 0; k < 3; k++) ASSERT(same(a[k], std::fabs(v[k])), "absolute value of a vector"); unsigned u = sx_u32("u"); ASSERT(abs(u) == u, "absolute value of a number"); std::vector<double> l(choose(3), d), m = abs(l); ASSERT(m.size() == l.size(), "absolute value of a list"); for (double x : m) ASSERT(same(x, std::fabs(d)), "absolute value of a list"); }
    }
#elif CASE == 1
    switch (choose(3)) {
    case 0: functions<N>(); power<N>(D()); power<N>(2); power<N>(0.5f); powerOf<N>(D()); powerOf<N>(2); break;
    case 1: functions<F>(); power<F>(2); power<F>(D()); powerOf<F>(3.0); break;
    case 2: power<V>(2); power<V>(D()); functions<One>(); power<One>(D()); powerOf<One>(D()); power<Part>(D()); powerOf<Part>(D()); { Vector<3, double> v{D(), D(), D()}, a = pow(v, 3); for (int k = 0; k < 3; k++) ASSERT(same(a[k], std::pow(v[k], 3)), "power of a vector"); N x = sym<N>(), y = sqrt(x); S(y.a, std::sqrt(x.a), "root"); struct H { static void go() {} }; }
    }
#else
    switch (choose(7)) {
    case 6: { // many values, of which two of the last are symbolic
        size_t n = choose(2) ? 300 : 66000, p = n - 12, q = n - 1; std::vector<double> v(n); for (size_t i = 0; i < n; i++) v[i] = (double)((i * 37) % 101) / 32 - 1.5; v[p] = D(); v[q] = D(); double hi = v[0], lo = v[0], s = v[0]; for (size_t k = 1; k < n; k++) { s += v[k]; if (k != p && k != q) { hi = v[k] > hi ? v[k] : hi; lo = v[k] < lo ? v[k] : lo; } }
        double mx = max(v), mn = min(v); ASSERT(mx >= hi && mx >= v[p] && mx >= v[q] && (mx == hi || mx == v[p] || mx == v[q]), "the maximum is the greatest of the values"); ASSERT(mn <= lo && mn <= v[p] && mn <= v[q] && (mn == lo || mn == v[p] || mn == v[q]), "the minimum is the least of the values"); sx_assert_close(sum(v), s, "sum of all values");
        W w; w.a = D(); w.n = N{0, 0}; w.v.assign(v.end() - 300, v.end()); double wx = max(w), wn = min(w); for (double d : {w.a, v[p], v[q], 0.0}) { ASSERT(wx >= d, "the maximum is not less than any value"); ASSERT(wn <= d, "the minimum is not greater than any value"); } auto u = abs(v); ASSERT(u.size() == n, "absolute value of a list"); for (size_t k = 0; k < n; k++) if (k < 400 || k + 400 > n) ASSERT(u[k] == std::fabs(v[k]), "absolute value of a list"); sx_reach("long"); break; }
    case 5: { Six o = sym<Six>(); o.b = 3; o.d = 1.5f; L l{o.a, 3, 1.5, o.e[0], o.e[1], o.f}; put(l, o.c); extremes(l, max(o), min(o), sum(o)); break; }
    case 0: { N o = sym<N>(); L l; put(l, o); extremes(l, max(o), min(o), sum(o)); One p = sym<One>(); ASSERT(max(p) == p.x && min(p) == p.x && sum(p) == p.x, "single attribute"); break; }
    case 1: { V o = sym<V>(); L l; for (int i = 0; i < 3; i++) put(l, o.v[i]); put(l, o.n); put(l, o.q); extremes(l, max(o), min(o), sum(o)); break; }
    case 2: { Part o = sym<Part>(); L l{o.x, o.y}; put(l, o.n); extremes(l, max(o), min(o), sum(o)); break; }
    case 3: { G g = sym<G>(); long x = max(g), n = min(g), s = sum(g); ASSERT(x >= g.a && x >= g.b && x >= g.c && (x == g.a || x == g.b || x == g.c), "maximum of integers"); ASSERT(n <= g.a && n <= g.b && n <= g.c && (n == g.a || n == g.b || n == g.c), "minimum of integers"); ASSERT(s == (long)g.a + g.b + g.c, "sum of integers"); std::vector<int> v(1 + choose(2)); for (int& i : v) i = I(1000); long t = 0; for (int i : v) { ASSERT(max(v) >= i && min(v) <= i, "extremes of a list of integers"); t += i; } ASSERT(sum(v) == t, "sum of a list of integers"); break; }
    case 4: { W o; o.a = D(); mk(o.n); for (int i = choose(3) + 1; i > 0; i--) o.v.push_back(D()); L l{o.a}; put(l, o.n); for (double d : o.v) put(l, d); extremes(l, max(o), min(o), sum(o)); std::vector<N> u; L k; for (int i = choose(2) + 1; i > 0; i--) { u.push_back(sym<N>()); put(k, u.back()); } extremes(k, max(u), min(u), sum(u)); std::vector<std::vector<double>> q{o.v, {o.a}}; L h = o.v; h.push_back(o.a); extremes(h, max(q), min(q), sum(q)); }
    }
#endif
    sx_reach("end");
}
