// Connections, neighborhoods, traversal and coloring of four dimensional meshes (simplices sharing a tetrahedron), against the incidence relation computed from lists of subelements.
#include "common.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <set>
#include <algorithm>
typedef uint64_t I;
static const I NONE = ~(I)0;
typedef UnstructuredMesh<4, I, double> Me;
static Me* M_; static size_t nv; static std::vector<std::vector<I>> sub[5];
static size_t count(unsigned d) { return d ? sub[d].size() : nv; }
template<class F> static void down(unsigned h, unsigned l, I i, F&& f) { if (h == l) { f(i); return; } for (I k : sub[h][i]) down(h - 1, l, k, f); }
struct Seen { std::vector<I> v; std::set<I> s; void operator()(I x) { if (s.insert(x).second) v.push_back(x); } };
typedef std::vector<std::vector<I>> Rel;
static Rel relation(unsigned a, unsigned b, bool sorted) {
    Rel r(count(a)); if (a == b) { for (I i = 0; i < r.size(); i++) r[i].push_back(i); return r; }
    if (a > b) { for (I i = 0; i < r.size(); i++) { Seen s; down(a, b, i, [&](I x) { s(x); }); r[i] = s.v; } }
    else { std::vector<Seen> s(count(a)); for (I j = 0; j < count(b); j++) down(b, a, j, [&](I x) { s[x](j); }); for (I i = 0; i < r.size(); i++) r[i] = s[i].v; }
    if (sorted) for (auto& l : r) std::sort(l.begin(), l.end()); return r;
}
template<class D> static void same(const D& d, const Rel& r, const char* what) { ASSERT(d.size() == r.size(), "one list per element"); for (size_t i = 0; i < r.size(); i++) { ASSERT(d[i].size() == r[i].size(), what); for (size_t k = 0; k < r[i].size(); k++) ASSERT(d[i][k].index == r[i][k], what); } }
template<unsigned A, unsigned B> static void conn() {
    same(MeshConnections<A, B>::connections(*M_).template getDataByPos<0>(), relation(A, B, true), "connections are exactly the incident elements, sorted");
    same(M_->template connections<A, B>().template getDataByPos<0>(), relation(A, B, true), "connections by the mesh itself");
    same(MeshConnections<A, B, ORDER_ORIGINAL>::connections(*M_).template getDataByPos<0>(), relation(A, B, false), "connections in the order of traversal");
    same(M_->template connections<A, B, ORDER_ORIGINAL>().template getDataByPos<0>(), relation(A, B, false), "connections in the order of traversal by the mesh itself");
    std::vector<std::pair<I, I>> got, exp; constexpr unsigned H = A > B ? A : B, L = A > B ? B : A;
    for (I h = 0; h < count(H); h++) down(H, L, h, [&](I l) { exp.push_back(A > B ? std::make_pair(h, l) : std::make_pair(l, h)); });
    MeshApply<A, B>::apply(*M_, [&](I a, I b) { got.push_back({a, b}); }); ASSERT(got == exp, "a function is applied to each visit in traversal order");
    got.clear(); M_->template apply<A, B>([&](I a, I b) { got.push_back({a, b}); }); ASSERT(got == exp, "a function is applied to each visit by the mesh itself");
    got.clear(); for (I i = 0; i < count(H); i++) M_->template apply<H, L>(i, [&](I a, I b) { got.push_back(A > B ? std::make_pair(a, b) : std::make_pair(b, a)); }); ASSERT(got == exp, "a function is applied for one element");
    sx_reach("conn");
}
template<unsigned A, unsigned B, unsigned C> static Rel neighRel(bool sorted) {
    Rel ab = relation(A, B, sorted), bc = relation(B, C, sorted), r(ab.size()); for (I i = 0; i < ab.size(); i++) { Seen s; for (I b : ab[i]) for (I c : bc[b]) if (!(A == C && c == i)) s(c); r[i] = s.v; if (sorted) std::sort(r[i].begin(), r[i].end()); } return r;
}
template<unsigned A, unsigned B, unsigned C> static void neigh() {
    same(MeshNeighborhood<A, B, C>::neighbors(*M_).template getDataByPos<0>(), neighRel<A, B, C>(true), "neighbors are exactly the elements sharing a connecting element");
    same(MeshNeighborhood<A, B, C, ORDER_ORIGINAL>::neighbors(*M_).template getDataByPos<0>(), neighRel<A, B, C>(false), "neighbors in the order of traversal");
    same(M_->template neighborhood<A, B, C>().template getDataByPos<0>(), neighRel<A, B, C>(true), "neighborhood by the mesh itself");
    same(M_->template neighborhood<A, B, C, ORDER_ORIGINAL>().template getDataByPos<0>(), neighRel<A, B, C>(false), "neighborhood in the order of traversal by the mesh itself");
    sx_reach("neigh");
}
template<unsigned A, unsigned B> static void color() {
    auto n = neighRel<A, B, A>(true); auto c = MeshColoring<A, B>::color(*M_); auto& d = c.template getDataByPos<0>(); ASSERT(d.size() == n.size(), "one color per element"); size_t mx = 0; for (auto& l : n) mx = std::max(mx, l.size());
    for (I i = 0; i < n.size(); i++) { I before = 0; for (I j : n[i]) { ASSERT(d[i] != d[j], "neighbors have different colors"); before += j < i; } ASSERT(d[i] <= before, "no color above the number of earlier neighbors"); }
    auto c2 = M_->template coloring<A, B>(); for (I i = 0; i < n.size(); i++) ASSERT(c2.template getDataByPos<0>()[i] == d[i], "coloring by the mesh itself");
    sx_reach("color");
}
extern "C" void sx_main() {
    // vertices 0..4 form the first simplex, 1..4 and 5 the second; elements numbered as they are met
    static const I cellV[2][5] = {{0, 1, 2, 3, 4}, {1, 2, 3, 4, 5}}; nv = 6;
    std::map<std::vector<I>, I> id[5];
    for (int c = 0; c < NC; c++) for (unsigned d = 1; d <= 4; d++) for (unsigned mask = 0; mask < 32; mask++) {
        std::vector<I> v; for (int k = 0; k < 5; k++) if (mask >> k & 1) v.push_back(cellV[c][k]); if (v.size() != d + 1 || id[d].count(v)) continue;
        std::vector<I> s; for (unsigned o = 0; o < v.size(); o++) { std::vector<I> w = v; w.erase(w.begin() + (v.size() - 1 - o)); s.push_back(d == 1 ? w[0] : id[d - 1][w]); }
        id[d][v] = sub[d].size(); sub[d].push_back(s);
    }
    // something of the topology is free
    int what = choose(4);
    if (what == 0) sub[1][5][1] = (I)sx_pick(sx_i64("v", 0, 5));
    else if (what == 1) sub[2][3][1] = (I)sx_pick(sx_i64("e", 0, (I)sub[1].size() - 1));
    else if (what == 2) sub[3][1][2] = (I)sx_pick(sx_i64("f", 0, (I)sub[2].size() - 1));
    else { I c = (I)choose(NC), s = (I)choose(5); std::rotate(sub[4][c].begin(), sub[4][c].begin() + s, sub[4][c].end()); }
    Me m; M_ = &m; for (I i = 0; i < nv; i++) m.getVertices().push_back(Me::Vertex(i));
    for (I i = 0; i < sub[1].size(); i++) m.getEdges().push_back(Me::Edge(i, sub[1][i][0], sub[1][i][1]));
    auto& e2 = m.getElements<2>(); auto& e3 = m.getElements<3>();
    for (I i = 0; i < sub[2].size(); i++) { e2.push_back(i); for (I x : sub[2][i]) e2.back().getSubelements().addSubelement(x); }
    for (I i = 0; i < sub[3].size(); i++) { e3.push_back(i); for (I x : sub[3][i]) e3.back().getSubelements().addSubelement(x); }
    for (I c = 0; c < sub[4].size(); c++) { m.getCells().push_back(Me::Cell(c)); auto& l = sub[4][c]; for (size_t k = 0; k < l.size(); k++) e3[l[k]].setNextBElem(l[(k + 1) % l.size()], c); m.getCells()[c].setBoundaryElementIndex(l[0]); }
#if WHAT == 0
    conn<4, 0>(); conn<0, 4>(); conn<4, 1>(); conn<1, 4>(); conn<4, 2>(); conn<2, 4>(); conn<4, 3>(); conn<3, 4>();
#elif WHAT == 1
    conn<3, 0>(); conn<0, 3>(); conn<3, 1>(); conn<1, 3>(); conn<3, 2>(); conn<2, 3>(); conn<2, 0>(); conn<0, 2>(); conn<2, 1>(); conn<1, 2>(); conn<1, 0>(); conn<0, 1>(); conn<4, 4>(); conn<2, 2>();
#elif WHAT == 2
    neigh<4, 3, 4>(); neigh<3, 2, 3>(); neigh<2, 1, 2>(); neigh<4, 0, 1>(); neigh<0, 3, 2>(); neigh<1, 4, 3>(); neigh<3, 4, 3>();
#else
    color<3, 2>(); color<2, 3>(); color<4, 3>(); color<3, 4>(); color<1, 2>(); color<0, 1>();
#endif
    sx_reach("end");
}
