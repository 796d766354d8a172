#include "common.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#include <cstdio>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include "boxes.h"
typedef BinarySerializer BS; typedef std::vector<uint8_t> Bytes; typedef std::string Str;
enum Old { O1 = 1, O2 = 70000 }; enum class Neu : uint16_t { A, B };
// ---- equality of what was written and what was read: bit patterns of numbers, structure of the rest
template<class T> static std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value, bool> same(const T& a, const T& b) { return sx_memeq(&a, &b, sizeof(T)); }
static bool same(const long double& a, const long double& b) { return a == b; }
template<class T> static std::enable_if_t<std::is_class<T>::value, bool> same(const T& a, const T& b);
template<class A, class B> static bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a.first, b.first) & same(a.second, b.second); }
template<size_t i, class T> static std::enable_if_t<i == std::tuple_size<T>::value, bool> tup(const T&, const T&) { return true; }
template<size_t i, class T> static std::enable_if_t<i<std::tuple_size<T>::value, bool> tup(const T& a, const T& b) { return same(std::get<i>(a), std::get<i>(b)) & tup<i + 1>(a, b); }
template<class... A> static bool same(const std::tuple<A...>& a, const std::tuple<A...>& b) { return tup<0>(a, b); }
template<class T> static bool same(const std::valarray<T>& a, const std::valarray<T>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= same(a[i], b[i]); return r; }
template<class T> static auto inOrder(const T& a, const T& b) { if (a.size() != b.size()) return false; bool r = true; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) r &= same(*i, *j); return r; }
template<class T> static std::enable_if_t<std::is_class<T>::value, bool> same(const T& a, const T& b) { return inOrder(a, b); }
template<class T> static bool same(const Idx<T>& a, const Idx<T>& b) { return inOrder(a.h, b.h); } template<class T> static bool same(const Fix<T>& a, const Fix<T>& b) { return inOrder(a.h, b.h); } template<class T> static bool same(const Tnl<T>& a, const Tnl<T>& b) { return inOrder(a.h, b.h); } template<class T> static bool same(const TnlData<T>& a, const TnlData<T>& b) { return inOrder(a.h, b.h); }
template<class K, class V> static bool same(const std::unordered_map<K, V>& a, const std::unordered_map<K, V>& b) { if (a.size() != b.size()) return false; bool r = true; for (auto& x : a) { auto i = b.find(x.first); if (i == b.end()) return false; r &= same(i->second, x.second); } return r; }
template<class K> static bool same(const std::unordered_set<K>& a, const std::unordered_set<K>& b) { if (a.size() != b.size()) return false; for (auto& x : a) if (!b.count(x)) return false; return true; }
// ---- round trip between two other values, into an object of any previous content
template<class T> static void trip(const T& v, const T& before) {
    uint16_t m1 = sx_u16("mark"), m2 = sx_u16("mark"), r1 = 0, r2 = 0; T keep(v), t(before);
    BS s; s.write(m1); size_t a = s.getData().size(); s << v; size_t e = s.getData().size(); s << m2; ASSERT(same(v, keep), "writing changes nothing"); ASSERT(a == 2 && s.getData().size() == e + 2, "one value after another");
    s >> r1; s.read(t); s >> r2; ASSERT(same(t, keep), "the value read is the value written"); ASSERT(r1 == m1 && r2 == m2, "a reading takes the bytes of its value and no others");
    // the same through the interface on raw data
    Bytes c; BS::addNext(c, v); ASSERT(c.size() == e - a && (std::is_same<T, long double>::value || sx_memeq(c.data(), s.getData().data() + a, c.size())), "the same bytes for the same value"); Bytes::const_iterator i = c.cbegin(); T u = BS::readNext<T>(i); ASSERT(i == c.cend(), "a reading ends after its value"); ASSERT(same(u, keep), "the value read from raw data");
    // read once more from the beginning, by value
    uint16_t r3 = s.read<uint16_t>(); ASSERT(r3 == m1, "reading goes on at the beginning after the end"); T w = s.read<T>(); ASSERT(same(w, keep), "the value read again"); T w2(before); s.resetIterator(); s.read(r1, w2, r2); ASSERT(r1 == m1 && r2 == m2 && same(w2, keep), "several values read at once");
    BS s2; s2.write(m2, v, m1); s2 >> r1 >> t >> r2; ASSERT(r1 == m2 && r2 == m1 && same(t, keep), "several values written at once");
}
#define U64 sx_u64("v")
#define U32 sx_u32("v")
#define U16 sx_u16("v")
#define U8 sx_u8("v")
static double D() { uint64_t x = U64; double d; memcpy(&d, &x, 8); return d; }
static float F() { uint32_t x = U32; float d; memcpy(&d, &x, 4); return d; }
static Str text(int n) { Str s; for (int i = 0; i < n; i++) s += (char)U8; return s; }
template<class C, class G> static C fill(int n, G g) { C c; for (int i = 0; i < n; i++) c.push_back(g()); return c; }
#ifndef LONGS
#define LONGS 4
#endif
#ifndef MAXN
#define MAXN 3
#endif
void sx_main() {
    int n = choose(MAXN), k = choose(3);
#if CASE == 0 // numbers and enumerations
    if (n == 0) { trip<bool>(U8 & 1, true); trip<char>((char)U8, 'x'); trip<signed char>((signed char)U8, 1); trip<uint8_t>(U8, 1); trip<wchar_t>((wchar_t)U32, 1); trip<short>((short)U16, 2); trip<uint16_t>(U16, 7); trip<char16_t>((char16_t)U16, 7); }
    else if (n == 1) { trip<int>((int)U32, 5); trip<unsigned>(U32, 5); trip<long>((long)U64, 5); trip<unsigned long long>(U64, 5); trip<Neu>((Neu)U16, Neu::A); trip<Old>((Old)(U32 & 0x1ffff), O1); }
    else { trip<double>(D(), 1.5); trip<float>(F(), 1.5f); trip<long double>(2.25L, 1.5L); }
#elif CASE == 1 // sequences
    auto u = [] { return (unsigned)U32; };
    trip(fill<std::vector<unsigned>>(n, u), fill<std::vector<unsigned>>(k, u)); trip(fill<std::vector<double>>(n, D), fill<std::vector<double>>(k, D)); trip(text(n), text(k)); trip(fill<std::deque<short>>(n, [] { return (short)U16; }), std::deque<short>(k)); trip(fill<std::list<double>>(n, D), std::list<double>(k, 1.0));
    trip(fill<std::vector<Str>>(n, [k] { return text(k); }), std::vector<Str>(k, "old")); int q = 0; trip(fill<std::vector<std::vector<uint16_t>>>(n, [&] { std::vector<uint16_t> r; for (int i = 0; i < q; i++) r.push_back(U16); q++; return r; }), std::vector<std::vector<uint16_t>>(k, std::vector<uint16_t>(1, 7))); trip(fill<std::list<std::deque<Str>>>(n, [] { return std::deque<Str>{text(1), text(0)}; }), std::list<std::deque<Str>>(k));
    trip(fill<std::wstring>(n, [] { return (wchar_t)U32; }), std::wstring(k, L'a')); trip(std::array<double, 3>{{D(), D(), D()}}, std::array<double, 3>{{1, 2, 3}}); trip(std::array<Str, 2>{{text(n), text(k)}}, std::array<Str, 2>{{"abc", ""}}); trip(Vector<3, float>{F(), F(), F()}, Vector<3, float>{1, 2, 3}); trip(Vertex<2, double>{D(), D()}, Vertex<2, double>{1, 2}); trip(fill<std::vector<Vertex<2, int>>>(n, [] { return Vertex<2, int>{(int)U32, (int)U32}; }), std::vector<Vertex<2, int>>(k));
    std::valarray<double> v(n), o(k); for (int i = 0; i < n; i++) v[i] = D(); trip(v, o);
    { BS s; s << fill<std::vector<double>>(n, D); std::valarray<double> x(k); std::list<double> l(k, 2.0); std::vector<double> y; s >> x; s >> l; s.read(y); ASSERT(y.size() == (size_t)n && x.size() == y.size() && l.size() == y.size(), "containers of the same values are interchangeable"); auto j = l.begin(); for (int i = 0; i < n; i++, ++j) ASSERT(same(x[i], y[i]) && same(*j, y[i]), "values of interchangeable containers"); }
#elif CASE == 2 // sets and maps, pairs and tuples
    { std::set<uint32_t> a, b; for (int i = 0; i < n; i++) a.insert(U32); for (int i = 0; i < k; i++) b.insert(U32); trip(a, b); }
    { std::map<int, Str> a, b; for (int i = 0; i < n; i++) a[(int)U32] = text(1); for (int i = 0; i < k; i++) b[(int)U32] = "old"; trip(a, b); }
    { std::multimap<uint8_t, uint16_t> a, b; for (int i = 0; i < n; i++) a.insert({U8, U16}); for (int i = 0; i < k; i++) b.insert({U8, U16}); trip(a, b); }
#elif CASE == 3
    { std::multiset<uint8_t> a, b; for (int i = 0; i < n; i++) a.insert(U8); for (int i = 0; i < k; i++) b.insert(U8); trip(a, b); }
    { std::unordered_map<uint32_t, double> a, b; for (int i = 0; i < n; i++) a[U32] = D(); for (int i = 0; i < k; i++) b[U32] = 1; trip(a, b); }
    { std::unordered_set<int> a, b; for (int i = 0; i < n; i++) a.insert((int)U32); for (int i = 0; i < k; i++) b.insert((int)U32); trip(a, b); }
#elif CASE == 6 // containers of the user
    { Idx<unsigned> v, o; Idx<Str> w, q; Fix<uint16_t> f, g; Fix<Str> d, e; for (int i = 0; i < n; i++) { v.h.push_back(U32); w.h.push_back(text(i + 1)); } for (int i = 0; i < k; i++) { o.h.push_back(7); q.h.push_back("old"); } for (int i = 0; i < 3; i++) { f.h[i] = U16; d.h[i] = text(n); g.h[i] = 5; e.h[i] = Str(k, 'z'); } trip(v, o); trip(w, q); trip(f, g); trip(d, e); }
    { Tnl<unsigned> v, o; Tnl<Str> w, q; TnlData<double> f, g; TnlData<Str> d, e; for (int i = 0; i < n; i++) { v.h.push_back(U32); w.h.push_back(text(i + 1)); f.h.push_back(D()); d.h.push_back(text(1)); } for (int i = 0; i < k; i++) { o.h.push_back(7); q.h.push_back("old"); g.h.push_back(2); e.h.push_back("o"); } trip(f, g); trip(v, o); trip(w, q); trip(d, e); }
    { std::vector<Idx<Tnl<uint8_t>>> v((size_t)n), o((size_t)k); for (auto& x : v) { x.h.resize((size_t)k); for (auto& y : x.h) y.h.assign((size_t)n, U8); } for (auto& x : o) x.h.resize(1); trip(v, o); }
#elif CASE == 5 // many elements
    static const size_t L[] = {63, 70, 130, 256, 300}; static const size_t P[] = {0, 10, 300}; size_t l = L[choose(LONGS)], p = P[k];
    auto at = [&](size_t i) { return i == 0 || i == l / 2 || i + 1 == l; };
    { std::vector<unsigned> v(l), o(p, 1); for (size_t i = 0; i < l; i++) v[i] = at(i) ? U32 : (unsigned)(i * 77); trip(v, o); }
    { Str v(l, 'x'), o(p, 'o'); for (size_t i = 0; i < l; i++) v[i] = at(i) ? (char)U8 : (char)i; trip(v, o); }
    { std::valarray<double> v(l), o(p); for (size_t i = 0; i < l; i++) v[i] = at(i) ? D() : (double)i; trip(v, o); }
    { std::vector<Str> v(l), o(p, "old"); for (size_t i = 0; i < l; i++) v[i] = at(i) ? text(2) : Str(i % 3, 'y'); v[1] = Str(l, 'q'); trip(v, o); }
    { std::vector<std::vector<uint8_t>> v(l), o(p, {1, 2}); for (size_t i = 0; i < l; i++) v[i].assign(at(i) ? 2 : i % 2, at(i) ? U8 : (uint8_t)i); v[2].assign(l, 7); trip(v, o); }
    { std::list<uint16_t> v, o(p, 9); for (size_t i = 0; i < l; i++) v.push_back(at(i) ? U16 : (uint16_t)(i * 250)); trip(v, o); }
    { std::deque<long> v, o(p, 9); for (size_t i = 0; i < l; i++) v.push_back(at(i) ? (long)U64 : (long)(i * i)); trip(v, o); }
    { std::map<unsigned, uint8_t> v, o; for (size_t i = 0; i < l; i++) v[(unsigned)(3 * i)] = at(i) ? U8 : (uint8_t)i; for (size_t i = 0; i < p; i++) o[(unsigned)(2 * i)] = 4; trip(v, o); }
    { std::set<int> v, o; for (size_t i = 0; i < l; i++) v.insert((int)i * 5); for (size_t i = 0; i < p; i++) o.insert((int)i); trip(v, o); }
    { std::multiset<short> v, o; for (size_t i = 0; i < l; i++) v.insert((short)(i / 2)); for (size_t i = 0; i < p; i++) o.insert(3); trip(v, o); }
    { std::vector<Vertex<2, double>> v(l), o(p); for (size_t i = 0; i < l; i++) v[i] = {at(i) ? D() : (double)i, 2.0}; trip(v, o); }
#elif CASE == 7 // tens of thousands of elements
    static const size_t L[] = {65535, 66000}; size_t l = L[choose(2)]; BS s; Str v(l, 'x'), r; for (size_t i = 0; i < l; i++) v[i] = (char)(i * 7 + (i >> 9)); v[0] = (char)U8; v[l - 1] = (char)U8; v[l / 2] = (char)U8; uint16_t m = U16, rm = 0;
    s << v << m; ASSERT(s.getData().size() >= l + 2, "every element is written"); s >> r >> rm; ASSERT(r.size() == v.size() && sx_memeq(r.data(), v.data(), l), "the value read is the value written"); ASSERT(rm == m, "a reading takes the bytes of its value and no others");
    if (k == 0) { const char* file = "s01.bin"; s.saveToFile(file); BS q; q << U8; q.loadFromFile(file); remove(file); r.clear(); q >> r >> rm; ASSERT(r.size() == v.size() && sx_memeq(r.data(), v.data(), l) && rm == m, "the value read from a file"); }
    if (k == 1) { std::vector<uint8_t> b(l + 1, 3); b[l] = U8; BS q; q << b; std::vector<uint8_t> c(2, 9); q >> c; ASSERT(c.size() == l + 1 && sx_memeq(c.data(), b.data(), l + 1), "a list of tens of thousands of numbers"); }
#else
    trip(std::make_pair(U32, text(n)), std::make_pair(1u, Str(k, 'a'))); trip(std::make_pair(std::make_pair(D(), U8), Neu::B), std::make_pair(std::make_pair(1.0, (uint8_t)1), Neu::A)); trip(std::make_tuple(U8, D(), text(n), std::vector<int>(k, (int)U32)), std::make_tuple((uint8_t)1, 1.0, Str(k, 'x'), std::vector<int>(n, 1))); trip(std::tuple<>(), std::tuple<>());
    { std::map<Str, std::vector<std::pair<int, double>>> a, b; for (int i = 0; i < n; i++) a[text(1)] = std::vector<std::pair<int, double>>(k, {(int)U32, D()}); b["b"] = {}; trip(a, b); } { std::set<std::pair<uint8_t, uint8_t>> a, b; for (int i = 0; i < n; i++) a.insert({U8, U8}); if (k) b.insert({1, 1}); trip(a, b); }
    { std::map<uint8_t, std::map<uint8_t, Str>> a, b; if (n) a[U8][U8] = text(k); if (n > 1) { a[U8]; a.begin()->second[U8] = text(1); } b[1][2] = "c"; trip(a, b); } { std::vector<std::tuple<Str, std::set<uint16_t>>> a, b; for (int i = 0; i < n; i++) a.push_back(std::make_tuple(text(k), std::set<uint16_t>{U16})); b.resize(k, std::make_tuple(Str("z"), std::set<uint16_t>{1})); trip(a, b); }
#endif
    sx_reach("end");
}
