// Connections, neighborhoods, traversal and coloring on meshes of dozens of cells, against the incidence relation computed from the description of the mesh.
#include "geo.h"
#include <set>
#ifndef NX
#define NX 3
#define NY 3
#define NZ 2
#endif
#ifndef DIM
#define DIM 3
#endif
typedef UnstructuredMesh<DIM, I, double> Me;
static Me* M_; static Geo<DIM> G; static std::vector<std::vector<I>> faceEdges; // in the order of the mesh
static std::vector<std::array<I, 2>> edges; static std::vector<std::vector<I>> cellFaces;
static size_t count(unsigned d) { return d == 0 ? G.p.size() : d == 1 ? edges.size() : d == DIM ? cellFaces.size() : faceEdges.size(); }
template<class F> static void down(unsigned h, unsigned l, I i, F f) { // visits of the lower elements in traversal order
    if (h == l) { f(i); return; }
    if (h == 1) { f(edges[i][0]); f(edges[i][1]); return; }
    for (I k : h == DIM ? cellFaces[i] : faceEdges[i]) down(h - 1, l, k, f);
}
struct Seen { std::vector<I> v; std::set<I> s; void operator()(I x) { if (s.insert(x).second) v.push_back(x); } };
typedef std::vector<std::vector<I>> Rel;
static Rel relation(unsigned a, unsigned b, bool sorted) {
    Rel r(count(a)); if (a == b) { for (I i = 0; i < r.size(); i++) r[i].push_back(i); return r; }
    if (a > b) { for (I i = 0; i < r.size(); i++) { Seen s; down(a, b, i, [&](I x) { s(x); }); r[i] = s.v; } }
    else { std::vector<Seen> s(count(a)); for (I j = 0; j < count(b); j++) down(b, a, j, [&](I x) { s[x](j); }); for (I i = 0; i < r.size(); i++) r[i] = s[i].v; }
    if (sorted) for (auto& l : r) std::sort(l.begin(), l.end()); return r;
}
template<class D> static void same(const D& d, const Rel& r, const char* what) { ASSERT(d.size() == r.size(), "one list per element"); for (size_t i = 0; i < r.size(); i++) { ASSERT(d[i].size() == r[i].size(), what); for (size_t k = 0; k < r[i].size(); k++) ASSERT(d[i][k].index == r[i][k], what); } }
template<unsigned A, unsigned B> static void conn() {
    same(MeshConnections<A, B>::connections(*M_).template getDataByPos<0>(), relation(A, B, true), "connections are exactly the incident elements, sorted");
    same(M_->template connections<A, B>().template getDataByPos<0>(), relation(A, B, true), "connections by the mesh itself");
}
template<unsigned A, unsigned B> static void orig() {
    same(MeshConnections<A, B, ORDER_ORIGINAL>::connections(*M_).template getDataByPos<0>(), relation(A, B, false), "connections in the order of traversal");
    std::vector<std::pair<I, I>> got, exp; MeshApply<A, B>::apply(*M_, [&](I a, I b) { got.push_back({a, b}); }); constexpr unsigned H = A > B ? A : B, L = A > B ? B : A;
    for (I h = 0; h < count(H); h++) down(H, L, h, [&](I l) { exp.push_back(A > B ? std::make_pair(h, l) : std::make_pair(l, h)); }); ASSERT(got == exp, "a function is applied to each visit in traversal order");
    std::vector<I> one; I i0 = count(H) - 1; MeshApply<H, L>::apply(i0, *M_, [&](I a, I b) { ASSERT(a == i0, "a function is applied for one element"); one.push_back(b); }); size_t k = 0; down(H, L, i0, [&](I l) { ASSERT(k < one.size() && one[k] == l, "a function is applied for one element"); k++; }); ASSERT(k == one.size(), "a function is applied for one element");
}
template<unsigned A, unsigned B, unsigned C> static Rel neighRel(bool sorted) {
    Rel ab = relation(A, B, sorted), bc = relation(B, C, sorted), r(ab.size()); for (I i = 0; i < ab.size(); i++) { Seen s; for (I b : ab[i]) for (I c : bc[b]) if (!(A == C && c == i)) s(c); r[i] = s.v; if (sorted) std::sort(r[i].begin(), r[i].end()); } return r;
}
template<unsigned A, unsigned B, unsigned C> static void neigh() {
    same(MeshNeighborhood<A, B, C>::neighbors(*M_).template getDataByPos<0>(), neighRel<A, B, C>(true), "neighbors are exactly the elements sharing a connecting element");
    same(MeshNeighborhood<A, B, C, ORDER_ORIGINAL>::neighbors(*M_).template getDataByPos<0>(), neighRel<A, B, C>(false), "neighbors in the order of traversal");
    same(M_->template neighborhood<A, B, C>().template getDataByPos<0>(), neighRel<A, B, C>(true), "neighborhood by the mesh itself");
}
template<unsigned A, unsigned B> static void color() {
    auto n = neighRel<A, B, A>(true); auto c = MeshColoring<A, B>::color(*M_); auto& d = c.template getDataByPos<0>(); ASSERT(d.size() == n.size(), "one color per element"); size_t mx = 0; for (auto& l : n) mx = std::max(mx, l.size());
    for (I i = 0; i < n.size(); i++) { for (I j : n[i]) ASSERT(d[i] != d[j], "neighbors have different colors"); std::set<I> before; for (I j : n[i]) if (j < i) before.insert(d[j]); I want = 0; while (before.count(want)) want++; ASSERT(d[i] == want, "each element takes the least color free among the earlier neighbors"); ASSERT(d[i] <= mx, "number of colors"); }
}
extern "C" void sx_main() {
    int v = choose(2), sd = v;
#if DIM == 3
    G = geoGrid(NX, NY, NZ, true);
#else
    G = geoGrid2(NX, NY);
#endif
    std::vector<Vertex<DIM, double>> pos; for (auto& p : G.p) { Vertex<DIM, double> x; for (int k = 0; k < DIM; k++) x[k] = p[k]; pos.push_back(x); }
    Me m; M_ = &m; build(m, G, pos, [&](I f) { return sd ? f % 3 == 1 : f % 2 == 0; }, [&](I e) { return (e + v) % 3 == 0; }, [&](I f) { return v == 1 ? f : (I)0; });
#ifdef BOUNDARY
    m.setupBoundaryCells();
#endif
    for (auto& e : m.getEdges()) edges.push_back({{e.getVertexAIndex(), e.getVertexBIndex()}});
    cellFaces = G.cf; for (I c = 0; c < cellFaces.size(); c++) { size_t r = c % cellFaces[c].size(); (void)r; std::rotate(cellFaces[c].begin(), cellFaces[c].begin() + cellFaces[c].size() % cellFaces[c].size(), cellFaces[c].end()); }
#if DIM == 3
    for (auto& f : m.getFaces()) { std::vector<I> l; for (I e : f.getSubelements()) l.push_back(e); faceEdges.push_back(l); }
#endif
    // one edge ends in any vertex, one cell is walked from any of its faces
    I ce = (I)SYMEDGE, x = (I)sx_pick(sx_i64("end", 0, NEND)) * (G.p.size() - 1) / NEND; m.getEdges()[ce].setVertexBIndex(x); edges[ce][1] = x;
    I c = (I)choose(2) * (cellFaces.size() - 1), s = (I)choose(2) * 3; std::rotate(cellFaces[c].begin(), cellFaces[c].begin() + s, cellFaces[c].end()); m.getCells()[c].setBoundaryElementIndex(cellFaces[c][0]);
    // cells walk their faces from the boundary element on
    for (I k = 0; k < cellFaces.size(); k++) { I b = m.getCells()[k].getBoundaryElementIndex(); auto it = std::find(cellFaces[k].begin(), cellFaces[k].end(), b); std::rotate(cellFaces[k].begin(), it, cellFaces[k].end()); }
#if WHAT == 0
    conn<DIM, 0>(); conn<0, DIM>(); conn<DIM, 1>(); conn<1, DIM>(); conn<1, 0>(); conn<0, 1>(); orig<DIM, 0>(); orig<0, DIM>(); orig<DIM, 1>(); orig<0, 1>();
#if DIM == 3
    conn<3, 2>(); conn<2, 3>(); conn<2, 1>(); conn<1, 2>(); conn<2, 0>(); conn<0, 2>(); orig<2, 0>(); orig<1, 2>(); orig<3, 2>();
#endif
#elif WHAT == 1
    neigh<DIM, 0, DIM>(); neigh<DIM, DIM - 1, DIM>(); neigh<0, DIM, 0>(); neigh<0, 1, 0>(); neigh<0, 1, DIM>(); neigh<DIM - 1, DIM, DIM - 1>(); neigh<DIM, 0, 1>(); neigh<1, 0, DIM>();
#else
    color<DIM, 0>(); color<DIM, DIM - 1>(); color<0, DIM>(); color<0, 1>(); color<1, DIM>(); color<1, 0>();
#endif
    sx_reach("end");
}
