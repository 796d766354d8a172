// Which attributes of classes are serialized, and how.
#include "common.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#include <list>
#include <map>
#include <set>
#include "boxes.h"
typedef BinarySerializer BS; typedef std::vector<uint8_t> Bytes; typedef std::string Str;
static unsigned U() { return sx_u32("v"); }
struct In { unsigned a, b, skip; In() : a(1), b(2), skip(3) {} In(int) : a(U()), b(U()), skip(U()) {} bool operator<(const In& o) const { return a < o.a; } }; MAKE_ATTRIBUTE_TRAIT(In, a, b);
struct Out { uint8_t n; In in; std::vector<In> v; Str s; std::pair<uint16_t, In> p; std::map<uint8_t, In> m; std::tuple<In, uint8_t> t; std::list<In> l; }; MAKE_ATTRIBUTE_TRAIT(Out, s, in, n, v, p, m, t, l);
struct Io { unsigned a, b; }; MAKE_ATTRIBUTE_TRAIT(Io, a, b); MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Io, b); MAKE_ATTRIBUTE_TRAIT_IO(Io, a);
struct Base { unsigned x; }; struct Derived : Base { unsigned y; unsigned& z() { return w; } const unsigned& zc() const { return w; } unsigned w; }; MAKE_CUSTOM_TRAIT(Derived, "y", &Derived::y, "x", (unsigned Derived::*)&Derived::x);
template<class T> struct Tmpl { T a; std::vector<T> b; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Tmpl<T>), (typename T), a, b);
struct Ref { unsigned hid; unsigned& get() { return hid; } const unsigned& getC() const { return hid; } }; MAKE_CUSTOM_TRAIT(Ref, "hid", std::make_pair(&Ref::getC, &Ref::get));
struct None { unsigned q, r; };
namespace user { struct Own { unsigned a, b; }; void BinarySerialize(Bytes& c, const Own& o) { BS::addNext(c, (uint8_t)(o.a & 0xff)); } void BinaryDeserialize(Bytes::const_iterator& i, Own& o) { o.a = BS::readNext<uint8_t>(i) + 1000u; } struct Packed { uint16_t a; uint8_t b; uint8_t c; }; } MAKE_ATTRIBUTE_TRAIT(user::Own, a, b); MAKE_ATTRIBUTE_TRAIT(user::Packed, a);
namespace Interface { template<> struct Compact<user::Packed, void> : public std::true_type {}; }
#define SAME(x, y, w) ASSERT((x) == (y), w)
static void sameIn(const In& r, const In& o, int what, const In& old, const char* w) { SAME(r.a, what & 1 ? o.a : old.a, w); SAME(r.b, what & 2 ? o.b : old.b, w); SAME(r.skip, what & 4 ? o.skip : old.skip, w); }
static Out mkOut(int n, int k) { Out o; o.n = sx_u8("v"); o.in = In(0); for (int i = 0; i < n; i++) { o.v.push_back(In(0)); o.l.push_back(In(0)); } for (int i = 0; i < k; i++) { o.s += (char)sx_u8("v"); o.m[(uint8_t)(3 * i)] = In(0); } o.p = {sx_u16("v"), In(0)}; o.t = std::make_tuple(In(0), sx_u8("v")); return o; }
// what: attributes of In that are transferred; mask: attributes of Out (s in n v p m t l from the lowest bit)
static void checkOut(const Out& r, const Out& o, const Out& old, int what, int mask) { In d; // new elements of containers hold default values
    SAME(r.s, mask & 1 ? o.s : old.s, "text"); if (mask & 2) sameIn(r.in, o.in, what, old.in, "nested object"); else sameIn(r.in, old.in, 7, old.in, "nested object that is not an attribute"); SAME(r.n, mask & 4 ? o.n : old.n, "number");
    if (mask & 8) { ASSERT(r.v.size() == o.v.size(), "size of a list of objects"); for (size_t i = 0; i < r.v.size() && i < o.v.size(); i++) sameIn(r.v[i], o.v[i], what, i < old.v.size() ? old.v[i] : d, "list of objects"); } else ASSERT(r.v.size() == old.v.size(), "list that is not an attribute");
    if (mask & 16) { SAME(r.p.first, o.p.first, "pair"); sameIn(r.p.second, o.p.second, what, old.p.second, "object in a pair"); }
    if (mask & 32) { ASSERT(r.m.size() == o.m.size(), "size of a map of objects"); for (auto& x : o.m) { ASSERT(r.m.count(x.first) == 1, "keys of a map"); if (r.m.count(x.first)) sameIn(r.m.at(x.first), x.second, what, d, "objects in a map"); } }
    if (mask & 64) { sameIn(std::get<0>(r.t), std::get<0>(o.t), what, std::get<0>(old.t), "object in a tuple"); SAME(std::get<1>(r.t), std::get<1>(o.t), "number in a tuple"); }
    if (mask & 128) { ASSERT(r.l.size() == o.l.size(), "size of a linked list of objects"); auto j = o.l.begin(); auto h = old.l.begin(); for (auto& x : r.l) { if (j == o.l.end()) break; sameIn(x, *j++, what, h == old.l.end() ? d : *h++, "linked list of objects"); } }
}
void sx_main() {
    int n = choose(3), k = choose(3);
#if CASE == 0 // default traits
    { In o(0), r(0), old(r); BS s; s << o << (uint8_t)7; ASSERT(s.getData().size() == 2 * sizeof(unsigned) + 1, "the attributes and nothing else are written"); s >> r; sameIn(r, o, 3, old, "object"); uint8_t e = 0; s >> e; ASSERT(e == 7, "after an object"); }
    { Out o = mkOut(n, k), r = mkOut(k, n), old(r); BS s; s << o; s >> r; checkOut(r, o, old, 3, 255); ASSERT(!s.isIteratorValid(), "the whole object is read"); Bytes c; BS::addNext(c, o.s); BS::addNext(c, o.in.a); BS::addNext(c, o.in.b); BS::addNext(c, o.n); bool pre = c.size() < s.getData().size() && std::equal(c.begin(), c.end(), s.getData().begin()); ASSERT(pre, "attributes are written in the order of traits"); }
    { Io o{U(), U()}, r{U(), U()}, old = r; BS s; s << o; s >> r; SAME(r.b, o.b, "arithmetic traits are used"); SAME(r.a, old.a, "other traits are not"); }
    { Derived o, r; o.x = U(); o.y = U(); o.w = U(); r.x = U(); r.y = U(); r.w = U(); unsigned w = r.w; BS s; s << o; s >> r; SAME(r.x, o.x, "inherited attribute"); SAME(r.y, o.y, "attribute"); SAME(r.w, w, "not an attribute"); }
    { Tmpl<uint16_t> o{sx_u16("v"), std::vector<uint16_t>(n, sx_u16("v"))}, r{1, std::vector<uint16_t>(k)}; Tmpl<Str> p{"a", std::vector<Str>(k, "bc")}, q; BS s; s << o << p; s >> r >> q; SAME(r.a, o.a, "attribute of a class template"); bool e = r.b == o.b && p.b == q.b && p.a == q.a; ASSERT(e, "attributes of class templates"); }
    { Ref o{U()}, r{U()}; BS s; s << o; s >> r; SAME(r.hid, o.hid, "attribute behind a reference"); }
    { user::Own o{U(), U()}, r{U(), U()}, old = r; std::vector<user::Own> v(n, o), u; BS s; s << o << v; ASSERT(s.getData().size() == 1 + sizeof(size_t) + n, "functions of the user come before traits"); s >> r >> u; SAME(r.a, (o.a & 0xff) + 1000, "read with a function of the user"); SAME(r.b, old.b, "the function of the user decides what is read"); ASSERT(u.size() == (size_t)n, "list of objects with functions of the user"); for (auto& x : u) SAME(x.a, (o.a & 0xff) + 1000, "list of objects read with a function of the user"); }
    { std::vector<user::Packed> v(n), u(k); for (auto& x : v) { x.a = sx_u16("v"); x.b = sx_u8("v"); x.c = sx_u8("v"); } BS s; s << v; ASSERT(s.getData().size() == sizeof(size_t) + n * sizeof(user::Packed), "compact objects are copied as a whole"); s >> u; ASSERT(u.size() == v.size(), "number of compact objects"); for (int i = 0; i < n; i++) { SAME(u[i].a, v[i].a, "compact object"); SAME(u[i].b, v[i].b, "compact object"); SAME(u[i].c, v[i].c, "compact object"); } user::Packed p{sx_u16("v"), 1, 2}, q{0, 5, 6}; BS t; t << p; t >> q; SAME(q.a, p.a, "single compact object follows its traits"); SAME((int)q.b, 5, "single compact object follows its traits"); }
    { std::set<In> a, b; for (int i = 0; i < n; i++) { In x(0); x.a = 10 * i; a.insert(x); } b.insert(In(0)); BS s; s << a; s >> b; ASSERT(a.size() == b.size(), "size of a set of objects"); auto j = b.begin(); for (auto& x : a) { if (j == b.end()) break; SAME(j->a, x.a, "set of objects"); SAME(j->b, x.b, "set of objects"); ++j; } }
#else // bound traits
    auto tb = makeTraits<In>("b", &In::b); auto ts = makeTraits<In>("skip", &In::skip, "a", &In::a); auto tn = makeTraits<None>("r", &None::r); auto to = makeTraits<Out>("v", &Out::v, "in", &Out::in, "m", &Out::m, "p", &Out::p, "t", &Out::t, "l", &Out::l);
    { In o(0), r(0), old(r); auto w = bindTraits(o, tb); auto d = bindTraits(r, tb); BS s; s << w; ASSERT(s.getData().size() == sizeof(unsigned), "attributes of bound traits are written"); s >> d; sameIn(r, o, 2, old, "object with bound traits"); const In c(0); In r2(0), old2(r2); auto cw = bindTraits(c, ts); auto d2 = bindTraits(r2, ts); BS s2; s2 << cw; s2 >> d2; sameIn(r2, c, 5, old2, "constant object with bound traits"); }
    { None o{U(), U()}, r{U(), U()}, old = r; auto w = bindTraits(o, tn); auto d = bindTraits(r, tn); BS s; s << w; s >> d; SAME(r.r, o.r, "class without traits of its own"); SAME(r.q, old.q, "class without traits of its own"); }
    { Out o = mkOut(n, k), r = mkOut(k, n), old(r); auto w = bindTraits(o, to, ts); auto d = bindTraits(r, to, ts); BS s; s << w; s << (uint8_t)9; s >> d; checkOut(r, o, old, 5, 2 | 8 | 16 | 32 | 64 | 128); uint8_t e = 0; s >> e; ASSERT(e == 9, "after an object with bound traits"); }
    { Out o = mkOut(n, k), r = mkOut(k, n), old(r); auto w = bindTraits(o, tb); auto d = bindTraits(r, tb); BS s; s << w; s >> d; checkOut(r, o, old, 2, 255); }
    { Out o = mkOut(n, k), r = mkOut(k, n), old(r); auto w = bindTraits(o, tn, to); auto d = bindTraits(r, tn, to); BS s; s << w; s >> d; checkOut(r, o, old, 3, 2 | 8 | 16 | 32 | 64 | 128); }
    { Out o = mkOut(n, k), r = mkOut(k, n), old(r); auto w = bindTraits(o, to, tb, ts); auto d = bindTraits(r, to, tb, ts); BS s; s << w; s >> d; checkOut(r, o, old, 2, 2 | 8 | 16 | 32 | 64 | 128); }
    { std::vector<In> o, r; for (int i = 0; i < n; i++) o.push_back(In(0)); for (int i = 0; i < k; i++) r.push_back(In(0)); auto old = r; auto w = bindTraits(o, ts); auto d = bindTraits(r, ts); BS s; s << w; s >> d; ASSERT(r.size() == o.size(), "list with bound traits"); for (int i = 0; i < n; i++) sameIn(r[i], o[i], 5, i < k ? old[i] : In(), "list with bound traits"); }
    { std::vector<std::pair<uint8_t, std::vector<In>>> o(n), r; for (auto& x : o) { x.first = sx_u8("v"); x.second.assign(k, In(0)); } auto w = bindTraits(o, tb); auto d = bindTraits(r, tb); BS s; s << w; s >> d; ASSERT(r.size() == o.size(), "nested list with bound traits"); for (size_t i = 0; i < r.size(); i++) { SAME(r[i].first, o[i].first, "pair with bound traits"); ASSERT(r[i].second.size() == (size_t)k, "inner list with bound traits"); for (auto& x : r[i].second) sameIn(x, o[i].second[0], 2, In(), "inner list with bound traits"); } }
    { std::pair<In, std::tuple<In, std::pair<In, uint8_t>, In>> o{In(0), std::make_tuple(In(0), std::make_pair(In(0), sx_u8("v")), In(0))}, r{In(0), std::make_tuple(In(0), std::make_pair(In(0), (uint8_t)0), In(0))}, old = r; auto w = bindTraits(o, ts); auto d = bindTraits(r, ts); BS s; s << w << (uint8_t)3; s >> d; sameIn(r.first, o.first, 5, old.first, "first of a pair with bound traits"); sameIn(std::get<0>(r.second), std::get<0>(o.second), 5, std::get<0>(old.second), "tuple with bound traits"); sameIn(std::get<1>(r.second).first, std::get<1>(o.second).first, 5, std::get<1>(old.second).first, "pair in a tuple with bound traits"); sameIn(std::get<2>(r.second), std::get<2>(o.second), 5, std::get<2>(old.second), "last of a tuple with bound traits"); ASSERT(std::get<1>(r.second).second == std::get<1>(o.second).second, "number beside objects with bound traits"); uint8_t e = 0; s >> e; ASSERT(e == 3, "after a pair with bound traits"); }
    { Idx<In> o, r; Tnl<In> p, q; Fix<In> f, g; for (int i = 0; i < n; i++) { o.h.push_back(In(0)); p.h.push_back(In(0)); } for (int i = 0; i < k; i++) { r.h.push_back(In(0)); q.h.push_back(In(0)); } for (int i = 0; i < 3; i++) { f.h[i] = In(0); g.h[i] = In(0); } auto old = r; auto old2 = q; auto old3 = g; auto w = bindTraits(o, ts); auto d = bindTraits(r, ts); auto w2 = bindTraits(p, tb); auto d2 = bindTraits(q, tb); auto w3 = bindTraits(f, tb); auto d3 = bindTraits(g, tb); BS s; s << w << w2 << w3; s >> d; s >> d2; s >> d3; ASSERT(r.h.size() == o.h.size() && q.h.size() == p.h.size(), "containers of the user with bound traits"); for (int i = 0; i < n; i++) { sameIn(r.h[i], o.h[i], 5, i < k ? old.h[i] : In(), "container with size and subscript and bound traits"); sameIn(q.h[i], p.h[i], 2, i < k ? old2.h[i] : In(), "TNL container with bound traits"); } for (int i = 0; i < 3; i++) sameIn(g.h[i], f.h[i], 2, old3.h[i], "container of constant size with bound traits"); ASSERT(!s.isIteratorValid(), "containers of the user are read completely"); }
    { std::map<uint8_t, std::pair<In, In>> o, r; for (int i = 0; i < n; i++) o[(uint8_t)(5 * i)] = {In(0), In(0)}; for (int i = 0; i < k; i++) r[(uint8_t)i] = {In(0), In(0)}; auto w = bindTraits(o, ts); auto d = bindTraits(r, ts); BS s; s << w; s >> d; ASSERT(r.size() == o.size(), "map with bound traits"); for (auto& x : o) { ASSERT(r.count(x.first) == 1, "keys of a map with bound traits"); if (r.count(x.first)) { sameIn(r[x.first].first, x.second.first, 5, In(), "map of pairs with bound traits"); sameIn(r[x.first].second, x.second.second, 5, In(), "map of pairs with bound traits"); } } }
    { user::Own o{U(), U()}, r{U(), U()}; auto t = makeTraits<user::Own>("b", &user::Own::b); std::vector<user::Own> v(n, o), u; auto w = bindTraits(v, t); auto d = bindTraits(u, t); BS s; s << w; s >> d; ASSERT(u.size() == (size_t)n, "user functions with bound traits"); for (auto& x : u) SAME(x.a, (o.a & 0xff) + 1000, "functions of the user come before bound traits"); }
#endif
    sx_reach("end");
}
