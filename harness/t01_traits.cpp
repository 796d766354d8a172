// Access to attributes by traits.
#include "common.h"
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <cstring>
#include <string>
#include <vector>
struct In { int p, q; }; MAKE_ATTRIBUTE_TRAIT(In, p, q);
class C {
public:
    int a; double d; std::string s; In in; int other, calls;
    C() : a(0), d(0), in{0, 0}, other(0), calls(0), h(0), r(0) {}
    int getH() const { return h; } void setH(const int& v) { h = v; calls++; }
    int getT() const { return 2 * h; } void setT(int v) { h = v - 1; calls += 10; } // not inverse of each other: reading and writing are told apart
    int& refR() { return r; } const int& refR() const { return r; }
    int noConst() { return r; } void setNC(int v) { r = v; }
    int scaled(int k) const { return a + k; } void setScaled(int v, int k) { a = v - 2 * k; }
    int h, r;
};
static int fget(const C& c) { return c.h + 1; } static void fset(C& c, const int& v) { c.h = v + 7; } static int& fref(C& c) { return c.other; } static const int& frefc(const C& c) { return c.other; }
MAKE_CUSTOM_TRAIT(C, "first", &C::a, "h", std::make_pair(&C::getH, &C::setH), "text", &C::s, "twice", std::make_pair(&C::getT, &C::setT), "ref", std::make_pair(static_cast<const int& (C::*)() const>(&C::refR), static_cast<int& (C::*)()>(&C::refR)), "nested", &C::in, "fun", std::make_pair(fget, fset), "funref", std::make_pair(frefc, fref), "nc", std::make_pair(&C::noConst, &C::setNC), "d", &C::d);
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(C, "the d", d, "the a", a); MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(C, in, a);
struct Plain { int x; int y; }; MAKE_NAMED_ATTRIBUTE_TRAIT(Plain, "x y", y, "y x", x);
struct IoOnly { int x; }; MAKE_ATTRIBUTE_TRAIT_IO(IoOnly, x); struct ArOnly { int x; }; MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(ArOnly, x); struct None { int x; };
template<class T, int N> struct Tm { T t[N]; T u; T v; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Tm<T, N>), (class T, int N), v, u); MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tm<T, N>), (class T, int N), "uu", u); MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((Tm<T, N>), (class T, int N), u, v);
struct Many { int m[1], a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9; }; MAKE_ATTRIBUTE_TRAIT(Many, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9);
struct Deep { In i; Plain p; C c; int z; }; MAKE_ATTRIBUTE_TRAIT(Deep, z, c, p, i);
class Priv { int x = 3, y = 4; friend class DefaultTraits<Priv>; public: int X() const { return x; } int Y() const { return y; } }; MAKE_ATTRIBUTE_TRAIT(Priv, x, y);
static int I() { return (int)sx_u32("i"); }
static C sym() { C c; c.a = I(); c.d = sx_f64("d"); c.s = std::string(choose(2) + 1, (char)sx_u8("c")); c.in = {I(), I()}; c.other = I(); c.calls = 0; c.h = (int)sx_i64("h", -1000000, 1000000); c.r = I(); return c; }
static void eq(const C& x, const C& y, const char* w) { ASSERT(x.a == y.a, w); ASSERT(sx_same(x.d, y.d), w); ASSERT(x.s == y.s, w); ASSERT(x.in.p == y.in.p, w); ASSERT(x.in.q == y.in.q, w); ASSERT(x.other == y.other, w); ASSERT(x.calls == y.calls, w); ASSERT(x.h == y.h, w); ASSERT(x.r == y.r, w); }
static bool N(const char* a, const char* b) { return strcmp(a, b) == 0; }
template<unsigned K, class T, class V, class F> static void access(const T& t, const C& o, const V& v, F f, const V& rd) { // write attribute K through both forms, f writes it by hand; rd is what reading gives
    C x = o, y = o; C* p = &x; V g = t.template getValue<K>(x); ASSERT(g == rd, "attribute of a variable"); g = t.template getValue<K>(p); ASSERT(g == rd, "attribute by a pointer"); eq(x, o, "reading changes nothing");
    f(y); t.template setValue<K>(x, v); eq(x, y, "writing an attribute"); x = o; t.template setValue<K>(p, v); eq(x, y, "writing an attribute by a pointer");
    x = o; t.template getReference<K>().setValue(x, v); eq(x, y, "writing with the access object"); x = o; g = t.template getReference<K>().getValue(x); ASSERT(g == rd, "reading with the access object"); }
template<unsigned K, class T, class V> static void constant(const T& t, const C& o, const V& rd) { V g = t.template getValue<K>(o); ASSERT(g == rd, "attribute of a constant object"); g = t.template getValue<K>(&o); ASSERT(g == rd, "attribute by a pointer to a constant object"); static_assert(HasConstGetAccess<typename T::template memRefType<K>>::value, ""); }
template<unsigned K, class T, class V, class F> static void direct(const T& t, const C& o, const V& v, F f) { static_assert(IsDirectAccess<typename T::template memRefType<K>>::value, ""); C x = o, y = o; f(y); t.template getAttr<K>(x) = v; eq(x, y, "writing by a reference to an attribute"); x = o; t.template getAttr<K>(&x) = v; eq(x, y, "writing by a reference to an attribute of a pointer"); }
#define RW(K, V, stmt, rd) access<K>(t, o, V, [&](C& c) { (void)c; stmt; }, rd)
#define CO(K, rd) constant<K>(t, o, rd)
#define DI(K, V, stmt) direct<K>(t, o, V, [&](C& c) { stmt; })
struct Count { static int n, sum; static const char* names[32]; }; int Count::n, Count::sum; const char* Count::names[32];
template<class Cl, class V> struct Fun { void operator()(unsigned k, const MemberAccess<Cl, V Cl::*>& r, const std::string& nm) const { ASSERT((int)k == Count::n, "order of a function template applied"); extern Many gMany; Count::sum += (int)(k + 1) * (int)r.getValue(gMany); Count::n++; } };
Many gMany;
void sx_main() {
    const C o = sym(); int v = I(), lv = (int)sx_i64("v", -1000000, 1000000); double dv = sx_f64("e"); std::string sv(choose(3), (char)sx_u8("t")); In iv{I(), I()};
#if CASE == 0
    { auto t = DefaultTraits<C>::getTraits(); static_assert(DefaultTraits<C>::size() == 10, ""); static_assert(decltype(t)::size() == 10, "");
      RW(0, v, c.a = v, o.a); CO(0, o.a); DI(0, v, c.a = v); RW(1, v, (c.h = v, c.calls++), o.h); CO(1, o.h); RW(2, sv, c.s = sv, o.s); CO(2, o.s); DI(2, sv, c.s = sv); RW(3, lv, (c.h = lv - 1, c.calls += 10), 2 * o.h); CO(3, 2 * o.h); RW(4, v, c.r = v, o.r); CO(4, o.r); DI(4, v, c.r = v);
      { C x = o, y = o; t.setValue<5>(x, iv); y.in = iv; eq(x, y, "writing a nested object"); ASSERT(t.getValue<5>(o).q == o.in.q && t.getValue<5>(o).p == o.in.p, "nested object"); t.getAttr<5>(x).p = v; y.in.p = v; eq(x, y, "nested attribute"); }
      RW(6, lv, c.h = lv + 7, o.h + 1); CO(6, o.h + 1); RW(7, v, c.other = v, o.other); CO(7, o.other); DI(7, v, c.other = v); { C x = o, y = o; ASSERT(t.getValue<8>(x) == o.r, "getter that is not constant"); t.setValue<8>(x, v); y.r = v; eq(x, y, "setter"); t.setValue<8>(&x, lv); y.r = lv; eq(x, y, "setter by a pointer"); ASSERT(t.getValue<8>(&x) == lv, "getter that is not constant, by a pointer"); } { C x = o, y = o; t.setValue<9>(x, dv); y.d = dv; eq(x, y, "writing a number"); ASSERT(sx_same(t.getValue<9>(x), dv), "reading a number"); }
      static_assert(!IsDirectAccess<decltype(t)::memRefType<1>>::value && !IsDirectAccess<decltype(t)::memRefType<6>>::value && !HasConstGetAccess<decltype(t)::memRefType<8>>::value, ""); static_assert(std::is_same<decltype(t)::type<2>, std::string>::value && std::is_same<decltype(t)::type<4>, int>::value && std::is_same<decltype(t)::type<9>, double>::value, "");
      const char* names[10] = {"first", "h", "text", "twice", "ref", "nested", "fun", "funref", "nc", "d"}; ASSERT(N(t.getName<0>(), names[0]) && N(t.getName<1>(), names[1]) && N(t.getName<2>(), names[2]) && N(t.getName<3>(), names[3]) && N(t.getName<4>(), names[4]) && N(t.getName<5>(), names[5]) && N(t.getName<6>(), names[6]) && N(t.getName<7>(), names[7]) && N(t.getName<8>(), names[8]) && N(t.getName<9>(), names[9]), "names");
      int n = 0; t.apply([&](unsigned k, const auto&, const std::string& nm) { ASSERT((int)k == n && nm == names[n], "order and names of attributes"); n++; }); ASSERT(n == 10, "a function is applied to every attribute"); n = 0; t.apply([&](const auto&, const std::string& nm) { ASSERT(n < 10 && nm == names[n], "order and names of attributes"); n++; }); ASSERT(n == 10, "a function is applied to every attribute"); }
    { auto t = DefaultIOTraits<C>::getTraits(); ASSERT(t.size() == 2 && N(t.getName<0>(), "the d") && N(t.getName<1>(), "the a"), "input and output traits of their own"); RW(1, v, c.a = v, o.a); auto u = DefaultArithmeticTraits<C>::getTraits(); ASSERT(u.size() == 2 && N(u.getName<0>(), "in") && N(u.getName<1>(), "a"), "arithmetic traits of their own"); }
#elif CASE == 1
    { int k = I(), m = I(); auto t = makeTraits<C>("lambda", std::make_pair([&k](const C& c) { return c.a ^ k; }, [&k](C& c, int x) { c.a = x + k; }), "bound", std::make_pair(std::bind(&C::scaled, std::placeholders::_1, m), std::bind(&C::setScaled, std::placeholders::_1, std::placeholders::_2, m)), "lref", std::make_pair([](const C& c) -> const int& { return c.other; }, [](C& c) -> int& { return c.other; }), "mixed", std::make_pair(&C::getH, fset), "member", &C::r);
      ASSERT(t.size() == 5 && N(t.getName<0>(), "lambda") && N(t.getName<1>(), "bound") && N(t.getName<2>(), "lref") && N(t.getName<3>(), "mixed") && N(t.getName<4>(), "member"), "names of made traits");
      RW(0, v, c.a = (int)((unsigned)v + (unsigned)k), o.a ^ k); CO(0, o.a ^ k); { C x = o, y = o; int want = (int)((unsigned)o.a + (unsigned)m); ASSERT(t.getValue<1>(o) == want, "bound getter"); ASSERT(t.getValue<1>(&o) == want, "bound getter by a pointer"); t.setValue<1>(x, v); y.a = (int)((unsigned)v - 2u * (unsigned)m); eq(x, y, "bound setter"); x = o; t.setValue<1>(&x, v); eq(x, y, "bound setter by a pointer"); }
      RW(2, v, c.other = v, o.other); CO(2, o.other); DI(2, v, c.other = v); RW(3, lv, c.h = lv + 7, o.h); CO(3, o.h); RW(4, v, c.r = v, o.r); DI(4, v, c.r = v); auto t2 = t; { C x = o, y = o; t2.setValue<4>(x, v); y.r = v; eq(x, y, "copied traits"); } }
#else
    { Plain x{I(), I()}, y = x; auto t = DefaultTraits<Plain>::getTraits(); ASSERT(N(t.getName<0>(), "x y") && N(t.getName<1>(), "y x"), "given names"); t.setValue<0>(x, v); ASSERT(x.y == v && x.x == y.x, "first attribute"); t.setValue<1>(x, lv); ASSERT(x.y == v && x.x == lv, "second attribute"); ASSERT(DefaultIOTraits<Plain>::getTraits().getValue<1>(x) == lv && DefaultArithmeticTraits<Plain>::getTraits().getValue<0>(x) == v, "other traits default to the default ones"); }
    { static_assert(HasDefaultTraits<Plain>::value && HasDefaultIOTraits<Plain>::value && HasDefaultArithmeticTraits<Plain>::value, ""); static_assert(!HasDefaultTraits<IoOnly>::value && HasDefaultIOTraits<IoOnly>::value && !HasDefaultArithmeticTraits<IoOnly>::value, ""); static_assert(!HasDefaultTraits<ArOnly>::value && !HasDefaultIOTraits<ArOnly>::value && HasDefaultArithmeticTraits<ArOnly>::value, ""); static_assert(!HasDefaultTraits<None>::value && !HasDefaultIOTraits<None>::value && !HasDefaultArithmeticTraits<None>::value, ""); }
    { Tm<int, 2> x; x.t[0] = x.t[1] = 1; x.u = I(); x.v = I(); int u = x.u; auto t = DefaultTraits<Tm<int, 2>>::getTraits(); ASSERT(t.getValue<0>(x) == x.v && t.getValue<1>(x) == x.u, "class template"); t.setValue<0>(x, v); ASSERT(x.v == v && x.u == u, "class template"); Tm<std::string, 1> s; s.u = sv; s.v = "q"; ASSERT((DefaultIOTraits<Tm<std::string, 1>>::getTraits().getValue<0>(s) == sv && DefaultArithmeticTraits<Tm<std::string, 1>>::getTraits().getValue<1>(s) == "q"), "class template"); ASSERT((N(DefaultIOTraits<Tm<std::string, 1>>::getTraits().getName<0>(), "uu")), "name in a class template"); }
    { int* f = &gMany.a0; int val[20]; for (int i = 0; i < 20; i++) f[i] = val[i] = (int)sx_i64("m", -1000, 1000); auto t = DefaultTraits<Many>::getTraits(); int n = 0; t.apply([&](unsigned k, const auto& r, const std::string& nm) { ASSERT((int)k == n, "order of many attributes"); ASSERT(nm == std::string(n < 10 ? "a" : "b") + (char)('0' + n % 10), "names of many attributes"); ASSERT(r.getValue(gMany) == val[n], "values of many attributes"); r.setValue(gMany, val[n] + n); n++; }); ASSERT(n == 20, "many attributes"); int sum = 0; for (int i = 0; i < 20; i++) { ASSERT(f[i] == val[i] + i, "many attributes are written"); sum += (i + 1) * f[i]; } Count::n = Count::sum = 0; t.apply<Fun>(); ASSERT(Count::n == 20, "a function template is applied to every attribute"); ASSERT(Count::sum == sum, "a function template gets every attribute"); ASSERT(t.getValue<19>(gMany) == f[19] && t.getValue<10>(gMany) == f[10] && t.getValue<7>(gMany) == f[7], "many attributes"); }
    { Deep d; d.z = I(); d.c = o; d.p = {I(), I()}; d.i = iv; Deep e = d; ASSERT(&get<0>(d) == &d.z && &get<1, 1>(d) == &d.c.a && &get<1, 0, 1>(d) == &d.c.in.q && &get<2, 0>(d) == &d.p.y && &get<3, 1>(d) == &d.i.q && &get<3>(d) == &d.i, "nested attributes by indices"); get<1, 0, 0>(d) = v; e.c.in.p = v; eq(d.c, e.c, "writing a nested attribute by indices"); ASSERT(d.z == e.z && d.p.x == e.p.x && d.p.y == e.p.y && d.i.p == e.i.p && d.i.q == e.i.q, "writing a nested attribute by indices"); get<2, 1>(&d) = lv; ASSERT(d.p.x == lv && d.p.y == e.p.y, "nested attribute of a pointer"); }
    { Priv p; auto t = DefaultTraits<Priv>::getTraits(); t.setValue<1>(p, v); ASSERT(p.X() == 3 && p.Y() == v, "private attribute"); }
#endif
    sx_reach("end");
}
