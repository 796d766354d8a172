// Text of exported values, by streams and by stdio.
#include <vector>
#include "text.h"
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#include "boxes.h"
typedef std::string Str;
#if CASE == 2
#define LOW 0 // the sign of numbers is the subject of the other cases
#else
#define LOW -100000
#endif
static int U() { return (int)sx_i64("v", LOW, 100000); }
static double D() { return (double)sx_i64("v", -400, 400) / 4; }
static char C() { char c = (char)sx_u8("c"); ASSUME(c >= 32 && c <= 126); return c; }
static Str S(int n) { Str s; for (int i = 0; i < n; i++) s += C(); return s; }
// reading of each kind of value
template<class T> struct N { static void rd(Rd& r, const T& v) { T x = r.template num<T>(); if (!(x == v)) r.fail(); } };
template<class T, class = void> struct K : N<T> {};
template<> struct K<bool> { static void rd(Rd& r, bool v) { r.want(v ? "true" : "false"); } };
template<> struct K<Str> { static void rd(Rd& r, const Str& v) { if (!(r.text() == v)) r.fail(); } };
template<> struct K<char> { static void rd(Rd& r, char v) { K<Str>::rd(r, Str(1, v)); } };
template<> struct K<const char*> { static void rd(Rd& r, const char* v) { K<Str>::rd(r, v); } };
template<> struct K<char*> : K<const char*> {};
template<size_t n> struct K<char[n]> : K<const char*> {};
template<class T> void rd(Rd& r, const T& v) { if (r.ok) K<T>::rd(r, v); }
template<class T> void seq(Rd& r, const T& v) { r.want('['); bool first = true; for (auto i = v.begin(); i != v.end(); ++i) { if (!first) r.want(','); first = false; rd(r, (const typename T::value_type&)*i); } r.want(']'); }
template<> struct K<std::vector<bool>> { static void rd(Rd& r, const std::vector<bool>& v) { r.want('['); for (size_t i = 0; i < v.size(); i++) { if (i) r.want(','); ::rd(r, (bool)v[i]); } r.want(']'); } };
template<class T> struct K<std::vector<T>> { static void rd(Rd& r, const std::vector<T>& v) { seq(r, v); } };
template<class T> struct K<std::list<T>> { static void rd(Rd& r, const std::list<T>& v) { seq(r, v); } };
template<class T> struct K<std::deque<T>> { static void rd(Rd& r, const std::deque<T>& v) { seq(r, v); } };
template<class T> struct K<std::set<T>> { static void rd(Rd& r, const std::set<T>& v) { seq(r, v); } };
template<class T> struct K<Idx<T>> { static void rd(Rd& r, const Idx<T>& v) { seq(r, v.h); } }; template<class T> struct K<Fix<T>> { static void rd(Rd& r, const Fix<T>& v) { seq(r, v.h); } }; template<class T> struct K<Tnl<T>> { static void rd(Rd& r, const Tnl<T>& v) { seq(r, v.h); } };
template<class T, size_t n> struct K<std::array<T, n>> { static void rd(Rd& r, const std::array<T, n>& v) { seq(r, v); } };
template<class A, class B> struct K<std::map<A, B>> { static void rd(Rd& r, const std::map<A, B>& v) { seq(r, v); } };
template<class A, class B> struct K<std::pair<A, B>> { static void rd(Rd& r, const std::pair<A, B>& v) { r.want('{'); ::rd<std::remove_const_t<A>>(r, v.first); r.want(':'); ::rd(r, v.second); r.want('}'); } };
template<unsigned n, class T> struct K<Vector<n, T>> { static void rd(Rd& r, const Vector<n, T>& v) { r.want('['); for (unsigned i = 0; i < n; i++) { if (i) r.want(','); ::rd(r, v[i]); } r.want(']'); } };
template<class T> void tupleEl(Rd& r, bool& first, const T& v) { if (!first) r.want(','); first = false; rd(r, v); }
template<class T, size_t... i> void tupleRd(Rd& r, const T& v, std::index_sequence<i...>) { r.want('['); bool first = true; int d[] = {0, (tupleEl(r, first, std::get<i>(v)), 0)...}; (void)d; r.want(']'); }
template<class... T> struct K<std::tuple<T...>> { static void rd(Rd& r, const std::tuple<T...>& v) { tupleRd(r, v, std::index_sequence_for<T...>()); } };
template<class T> void attr(Rd& r, const char* n, const T& v, bool first = false) { if (!first) r.want(','); if (r.ok && r.text() != n) r.fail(); r.want(':'); rd(r, v); }
// each way of exporting gives a text of the value, and nothing else
template<class T, class F> void check(const T& v, F f, const char* w) {
    std::ostringstream o; { std::ostream& b = o; b << std::left << "<"; b.precision(17); VariableExport::exportVariable(b, v); ASSERT(b.precision() == 17 && b.fill() == ' ' && (b.flags() & std::ios::adjustfield) == std::ios::left && (b.flags() & std::ios::basefield) == std::ios::dec, "export leaves the formatting of the stream"); b << ">"; }
    { Rd r(o.str()); r.want('<'); f(r); r.want('>'); r.end(); ASSERT(r.ok, w); }
    std::stringstream s; Str lost = captureStdout([&] { VariableExport::exportVariable(s, v); }); { Rd r(s.str()); f(r); r.end(); ASSERT(r.ok && lost.empty(), "export to a string stream"); }
    { std::ofstream g("sx_export.txt"); VariableExport::exportVariable(g, v); } { Rd r(fileText("sx_export.txt")); f(r); r.end(); ASSERT(r.ok, "export to a file"); }
    Str p = captureStdout([&] { VariableExport::exportVariable(v); }); { Rd r(p); f(r); r.end(); ASSERT(r.ok, w); }
}
template<class T> void both(const T& v, const char* w) { check(v, [&](Rd& r) { rd(r, v); }, w); }
struct In { int a; Str s; bool hid; }; MAKE_ATTRIBUTE_TRAIT(In, a, s);
struct Out { double d; In in; std::vector<In> v; bool b; std::pair<Str, In> p; std::map<Str, int> m; std::tuple<In, char> t; char sk; }; MAKE_NAMED_ATTRIBUTE_TRAIT(Out, "value", d, "in", in, "list of", v, "b", b, "p", p, "m", m, "t", t);
struct Io { int x, y; }; MAKE_ATTRIBUTE_TRAIT(Io, x); MAKE_ATTRIBUTE_TRAIT_IO(Io, y);
struct Get { int h; int get() const { return h + 1; } void set(const int& x) { h = x - 1; } }; MAKE_CUSTOM_TRAIT(Get, "h+1", std::make_pair(&Get::get, &Get::set));
struct No { int q, r; };
namespace user { struct Own { int a; }; void PrintTo(const Own& o, std::ostream& s) { s << "own" << o.a; } void PrintTo(const Own& o) { printf("own%d", o.a); } } MAKE_ATTRIBUTE_TRAIT(user::Own, a);
struct Raw { unsigned char b[3]; };
template<> struct K<In> { static void rd(Rd& r, const In& v) { r.want('{'); attr(r, "a", v.a, true); attr(r, "s", v.s); r.want('}'); } };
template<> struct K<Out> { static void rd(Rd& r, const Out& v) { r.want('{'); attr(r, "value", v.d, true); attr(r, "in", v.in); attr(r, "list of", v.v); attr(r, "b", v.b); attr(r, "p", v.p); attr(r, "m", v.m); attr(r, "t", v.t); r.want('}'); } };
template<> struct K<user::Own> { static void rd(Rd& r, const user::Own& v) { r.want("own"); ::rd(r, v.a); } };
template<> struct K<Io> { static void rd(Rd& r, const Io& v) { r.want('{'); attr(r, "y", v.y, true); r.want('}'); } };
template<> struct K<Get> { static void rd(Rd& r, const Get& v) { r.want('{'); attr(r, "h+1", v.h + 1, true); r.want('}'); } };
static In mkIn(int n) { return In{U(), S(n), true}; }
#ifndef MAXN
#define MAXN 3
#endif
void sx_main() {
#if CASE == 0 // numbers, truth values, texts
    switch (choose(14)) {
        case 0: { both((int)sx_u32("v"), "int"); both((unsigned)sx_u32("v"), "unsigned"); both((short)sx_u16("v"), "short"); both((unsigned short)sx_u16("v"), "unsigned short"); break; }
        case 1: { both((long)sx_u64("v"), "long"); both((unsigned long)sx_u64("v"), "unsigned long"); both((long long)sx_u64("v"), "long long"); both((unsigned long long)sx_u64("v"), "unsigned long long"); break; }
        case 2: { both(D(), "double"); both((float)D(), "float"); both((bool)(sx_u8("v") & 1), "truth value"); break; }
        case 3: both(C(), "character"); break;
        case 4: both(S(choose(MAXN)), "text"); break;
        case 5: { Str s = S(choose(MAXN)); both(s.c_str(), "text of a pointer"); break; }
        case 6: { Str s = S(choose(MAXN)); both(const_cast<char*>(s.data()), "text of a pointer"); break; }
        case 7: { char l[3] = {C(), C(), 0}; const char (&k)[3] = l; both(k, "text of an array"); break; }
        case 8: { both("a \"literal\"", "literal"); both("", "literal"); break; }
        case 9: { enum E { a, b = 5 }; E e = choose(2) ? a : b; check(e, [&](Rd& r) { K<int>::rd(r, (int)e); }, "enumeration"); break; }
        case 10: { int e = 1 + choose(255); unsigned char x = (unsigned char)e; Raw w{{x, (unsigned char)choose(2), (unsigned char)(255 - x)}}; std::ostringstream o; o.fill('*'); o.setf(std::ios::showpos); bool hx = choose(2); if (hx) o.setf(std::ios::hex, std::ios::basefield); VariableExport::exportVariable(o, w); Str t = o.str(); static const char* h = "0123456789abcdef"; Str q; for (int i = 0; i < 3; i++) { if (i) q += ' '; q += h[w.b[i] >> 4]; q += h[w.b[i] & 15]; } bool k = t.size() >= q.size() + 2 && t.substr(t.size() - q.size() - 2) == "(" + q + ")"; ASSERT(k, "bytes of an unknown type"); ASSERT(o.fill() == '*' && (o.flags() & std::ios::basefield) == (hx ? std::ios::hex : std::ios::dec) && (o.flags() & std::ios::showpos), "export of bytes leaves the formatting of the stream"); break; }
        case 11: both(std::make_pair(U(), S(1)), "pair"); break;
        case 12: both(Vector<3, double>{D(), D(), D()}, "vector"); both(Vertex<2, float>{(float)D(), (float)D()}, "vertex"); both(Vector<1, int>{U()}, "vector"); break;
        case 13: both(std::make_tuple(U(), D(), S(1), (U() & 1) != 0), "tuple"); both(std::make_tuple(U()), "tuple of one"); both(std::make_tuple(std::make_pair(U(), U()), std::make_tuple(C(), U())), "nested tuple"); break;
    }
#elif CASE == 1 // containers
    int n = choose(4);
    switch (choose(10)) {
        case 0: { std::vector<int> v; std::list<double> l; std::deque<unsigned> d; for (int i = 0; i < n; i++) { v.push_back(U()); l.push_back(D()); d.push_back(sx_u32("v")); } both(v, "list"); both(l, "linked list"); both(d, "deque"); break; }
        case 1: { std::vector<bool> v; std::list<bool> l; for (int i = 0; i < n; i++) { v.push_back(sx_u8("v") & 1); l.push_back(sx_u8("v") & 1); } both(v, "list of truth values"); both(l, "linked list of truth values"); break; }
        case 2: { std::vector<Str> v; for (int i = 0; i < n && i < 2; i++) v.push_back(S(1)); both(v, "list of texts"); break; }
        case 3: { std::map<Str, std::vector<int>> m; for (int i = 0; i < n; i++) m[Str(1, (char)('a' + i)) + "\""].assign(i, U()); both(m, "map"); break; }
        case 4: { std::set<int> s; for (int i = 0; i < n; i++) s.insert(i * 4 + (int)sx_i64("v", 0, 3)); both(s, "set"); std::map<int, bool> m; for (int i = 0; i < n; i++) m[i * 4 + (int)sx_i64("v", 0, 3)] = sx_u8("v") & 1; both(m, "map of truth values"); break; }
        case 5: { std::vector<std::vector<int>> v((size_t)n); for (int i = 0; i < n; i++) v[i].assign((size_t)((i + 1) % 3), U()); both(v, "nested lists"); break; }
        case 6: { std::array<int, 1> a{{U()}}; std::array<double, 3> b{{D(), D(), D()}}; both(a, "array"); both(b, "array"); std::vector<Vector<2, int>> v; for (int i = 0; i < n; i++) v.push_back({U(), U()}); both(v, "list of vectors"); break; }
        case 7: { std::vector<std::tuple<int, bool>> v; std::list<std::pair<char, int>> l; for (int i = 0; i < n; i++) { v.emplace_back(U(), i & 1); l.emplace_back((char)('a' + i), U()); } both(v, "list of tuples"); both(l, "list of pairs"); break; }
        case 9: { Idx<int> x; Tnl<Str> y; Fix<bool> z; Idx<Tnl<int>> w((Idx<Tnl<int>>())); for (int i = 0; i < n; i++) { x.h.push_back(U()); y.h.push_back(S(i % 2)); w.h.push_back(Tnl<int>{std::vector<int>((size_t)((i + 1) % 3), 5)}); } z.h[1] = sx_u8("v") & 1; both(x, "container of the user"); both(y, "TNL container"); both(z, "container of constant size"); both(w, "nested containers of the user"); break; }
        case 8: { size_t big = n == 0 ? 5 : n == 1 ? 19 : n == 2 ? 40 : 300; switch (choose(7)) { // long ones
            case 0: { std::vector<int> v(big, 3); v[big / 2] = (int)sx_i64("v", 0, 99); v[big - 1] = U(); both(v, "long list"); break; } case 1: { std::list<int> l(big, 3); l.front() = U(); l.back() = (int)sx_i64("v", 0, 99); both(l, "long linked list"); break; }
            case 2: { std::map<int, int> m; for (size_t i = 0; i < big; i++) m[(int)i] = 7; m[0] = U(); both(m, "long map"); break; } case 3: { Str t(big, 'a'); t[0] = C(); t[big - 1] = C(); both(t, "long text"); break; }
            case 5: { Idx<int> x; x.h.assign(big, 4); x.h[big - 1] = U(); both(x, "long container of the user"); break; } case 6: { Tnl<int> x; x.h.assign(big, 4); x.h[big / 2] = U(); both(x, "long TNL container"); break; }
            case 4: { std::vector<Vector<2, int>> q(big); for (size_t i = 0; i < big; i++) q[i] = {1, 2}; q[big - 1] = {3, U()}; both(q, "long list of vectors"); break; } } break; }
    }
#else // objects with traits
    int n = choose(3), k = choose(2);
    { Out o; o.d = D(); o.in = mkIn(k); for (int i = 0; i < n; i++) o.v.push_back(mkIn(0)); o.b = sx_u8("v") & 1; o.p = {"k", mkIn(0)}; for (int i = 0; i < n; i++) o.m[Str(i, 'x')] = U(); o.t = std::make_tuple(mkIn(0), 'z'); o.sk = 'q';
      if (choose(2)) both(o, "object"); else {
      // bound traits replace those of the class, also inside
      auto ti = makeTraits<In>("hid?", &In::hid); auto to = makeTraits<Out>("i", &Out::in, "l", &Out::v, "t", &Out::t); auto in = [](Rd& r, const In& x, bool first) { (void)first; r.want('{'); attr(r, "hid?", x.hid, true); r.want('}'); };
      auto w1 = bindTraits(o, ti); check(w1, [&](Rd& r) { r.want('{'); attr(r, "value", o.d, true); r.want(','); r.want("\"in\""); r.want(':'); in(r, o.in, true); r.want(','); r.want("\"list of\""); r.want(':'); r.want('['); for (size_t i = 0; i < o.v.size(); i++) { if (i) r.want(','); in(r, o.v[i], true); } r.want(']'); attr(r, "b", o.b); r.want(','); r.want("\"p\""); r.want(':'); r.want('{'); rd(r, o.p.first); r.want(':'); in(r, o.p.second, true); r.want('}'); attr(r, "m", o.m); r.want(','); r.want("\"t\""); r.want(':'); r.want('['); in(r, std::get<0>(o.t), true); r.want(','); rd(r, std::get<1>(o.t)); r.want(']'); r.want('}'); }, "traits bound for nested objects");
      auto w2 = bindTraits(o, to); check(w2, [&](Rd& r) { r.want('{'); attr(r, "i", o.in, true); attr(r, "l", o.v); attr(r, "t", o.t); r.want('}'); }, "bound traits");
      Idx<In> bi; Tnl<In> bt; for (int i = 0; i < n; i++) { bi.h.push_back(In{i, "", i % 2 == 0}); bt.h.push_back(In{i, "", i % 2 == 1}); } auto lst = [&](Rd& r, const std::vector<In>& l) { r.want('['); for (size_t i = 0; i < l.size(); i++) { if (i) r.want(','); in(r, l[i], true); } r.want(']'); }; auto w4 = bindTraits(bi, ti); check(w4, [&](Rd& r) { lst(r, bi.h); }, "container of the user with bound traits"); auto w5 = bindTraits(bt, ti); check(w5, [&](Rd& r) { lst(r, bt.h); }, "TNL container with bound traits");
      const Out& co = o; auto w3 = bindTraits(co, ti, to); check(w3, [&](Rd& r) { r.want('{'); r.want("\"i\""); r.want(':'); in(r, o.in, true); r.want(','); r.want("\"l\""); r.want(':'); r.want('['); for (size_t i = 0; i < o.v.size(); i++) { if (i) r.want(','); in(r, o.v[i], true); } r.want(']'); r.want(','); r.want("\"t\""); r.want(':'); r.want('['); in(r, std::get<0>(o.t), true); r.want(','); rd(r, std::get<1>(o.t)); r.want(']'); r.want('}'); }, "several bound traits"); } }
    { std::vector<user::Own> v; for (int i = 0; i < n; i++) v.push_back(user::Own{U()}); both(v, "functions of the user come before traits"); both(user::Own{U()}, "functions of the user come before traits"); }
    { both(Io{U(), U()}, "input and output traits are used"); both(Get{U()}, "attribute given by a function"); No o{U(), U()}; auto tn = makeTraits<No>("r", &No::r); auto w = bindTraits(o, tn); check(w, [&](Rd& r) { r.want('{'); attr(r, "r", o.r, true); r.want('}'); }, "class without traits of its own"); }
#endif
    sx_reach("end");
}
