// Connections and neighborhoods on meshes with symbolic topology, against the incidence relation.
#include "topo.h"
#ifndef DEEP
#define DEEP 0
#endif
#ifndef CASE
#define CASE 0
#endif
static Topo T;
template<unsigned A, unsigned B, class R> static void ascending(const R& res, const char* what) {
    auto& d = res.template getDataByPos<0>(); ASSERT(d.size() == T.count(A), "one list per element");
    for (unsigned i = 0; i < T.count(A); i++) {
        auto& l = d[i]; bool in[16] = {};
        for (unsigned k = 0; k < l.size(); k++) { ASSERT(l[k].index < T.count(B), "connected elements exist"); if (k) ASSERT(l[k - 1].index < l[k].index, "connected elements are sorted and listed once"); }
        for (unsigned j = 0; j < T.count(B); j++) { bool f = false; for (auto& x : l) f = f | (x.index == j); ASSERT(f == T.touch(A, i, B, j), what); }
        (void)in;
    }
}
// sequence in which the elements of dimension B are met from element i of dimension A
template<unsigned A, unsigned B, class F> static void walk(unsigned i, F f);
template<unsigned B, class F> static void walkDown(unsigned h, I i, F& f) {
    if (h == B) { f(i); return; }
    if (h == 1) { f(T.edge[i][0]); f(T.edge[i][1]); return; }
    if (h == T.dim) { unsigned list[12], n = 0; unsigned nb = T.count(h - 1); for (unsigned k = 0; k < nb; k++) if (T.cellFace((unsigned)i, k)) list[n++] = k; for (unsigned k = 0; k < n; k++) walkDown<B>(h - 1, list[(k + T.start[i]) % n], f); }
    else for (unsigned k = 0; k < T.fn[i]; k++) walkDown<B>(h - 1, T.face[i][k], f);
}
struct Seen { std::vector<I> v; void operator()(I x) { for (I y : v) if (y == x) return; v.push_back(x); } };
template<unsigned A, unsigned B> static std::vector<I> order(unsigned i) {
    Seen s; if (A >= B) walkDown<B>(A, i, s); else for (unsigned j = 0; j < T.count(B); j++) if (T.has(B, j, A, i)) s(j);
    return s.v;
}
template<unsigned A, unsigned B, class M> static void conn(const M& m) {
    auto c = MeshConnections<A, B>::connections(m); ascending<A, B>(c, "connections are exactly the incident elements");
    auto c2 = m.template connections<A, B>(); for (unsigned i = 0; i < T.count(A); i++) { auto &x = c.template getDataByPos<0>()[i], &y = c2.template getDataByPos<0>()[i]; ASSERT(x.size() == y.size(), "member and free function agree"); for (unsigned k = 0; k < x.size(); k++) ASSERT(x[k].index == y[k].index, "member and free function agree"); }
    sx_reach("conn");
}
template<unsigned A, unsigned B, class M> static void orig(const M& m) {
    auto c = MeshConnections<A, B, ORDER_ORIGINAL>::connections(m); auto& d = c.template getDataByPos<0>(); ASSERT(d.size() == T.count(A), "one list per element");
    for (unsigned i = 0; i < T.count(A); i++) { auto w = order<A, B>(i); ASSERT(d[i].size() == w.size(), "original order lists each incident element once"); for (unsigned k = 0; k < w.size(); k++) ASSERT(d[i][k].index == w[k], "original order follows the traversal of the mesh"); }
    sx_reach("orig");
}
template<unsigned A, unsigned B, unsigned C, class M> static void neigh(const M& m) {
    auto n = MeshNeighborhood<A, B, C>::neighbors(m); auto& d = n.template getDataByPos<0>(); ASSERT(d.size() == T.count(A), "one list per element");
    for (unsigned i = 0; i < T.count(A); i++) {
        for (unsigned k = 0; k < d[i].size(); k++) { ASSERT(d[i][k].index < T.count(C), "neighbors exist"); if (k) ASSERT(d[i][k - 1].index < d[i][k].index, "neighbors are sorted and listed once"); }
        for (unsigned j = 0; j < T.count(C); j++) { bool want = false; for (unsigned b = 0; b < T.count(B); b++) want = want | (T.touch(A, i, B, b) & T.touch(B, b, C, j)); if (A == C && i == j) want = false; bool f = false; for (auto& x : d[i]) f = f | (x.index == j); ASSERT(f == want, "neighbors are exactly the elements sharing a connecting element"); }
    }
    auto o = MeshNeighborhood<A, B, C, ORDER_ORIGINAL>::neighbors(m); auto& od = o.template getDataByPos<0>();
    for (unsigned i = 0; i < T.count(A); i++) { Seen s; for (I b : order<A, B>(i)) for (I c : order<B, C>((unsigned)b)) if (!(A == C && c == i)) s(c); ASSERT(od[i].size() == s.v.size(), "neighbors in original order are listed once"); for (unsigned k = 0; k < s.v.size(); k++) ASSERT(od[i][k].index == s.v[k], "neighbors in original order follow the traversal"); }
    sx_reach("neigh");
}
template<unsigned A, unsigned B, class M> static void applied(const M& m) {
    unsigned calls = 0, want = 0; bool ok = true; std::vector<I> got, exp;
    MeshApply<A, B>::apply(m, [&](I a, I b) { calls++; got.push_back(a); got.push_back(b); });
    constexpr unsigned H = A > B ? A : B, L = A > B ? B : A;
    for (unsigned h = 0; h < T.count(H); h++) { auto f = [&](I l) { want++; exp.push_back(A > B ? h : l); exp.push_back(A > B ? l : h); }; walkDown<L>(H, h, f); }
    ASSERT(calls == want && got.size() == exp.size(), "a function is applied once per visit"); for (unsigned k = 0; k < exp.size(); k++) ASSERT(got[k] == exp[k], "a function is applied to (start, target) pairs in traversal order"); (void)ok;
    sx_reach("apply");
}
extern "C" void sx_main() {
#if CASE == 0 || CASE == 1 || CASE == 2 || CASE == 7
    // 2D; CASE 0: symbolic vertices of two edges, CASE 1: symbolic cells of the edges, CASE 2: everything concrete
    T = twoTris();
#if CASE == 0
    for (int e : {1, 4}) for (int k = 0; k < (e == 4 && !DEEP ? 1 : 2); k++) T.edge[e][k] = (I)sx_i64("v", 0, 3);
#elif CASE == 1
    for (int e = 0; e < 5; e += DEEP ? 1 : 2) { int c = (int)sx_pick(sx_i64("cells", 0, 6)); T.fl[e] = c == 0 || c == 2 || c == 4 ? 0 : c == 1 || c == 3 ? 1 : NONE; T.fr[e] = c == 2 || c == 6 ? 1 : c == 3 || c == 5 ? 0 : NONE; }
#endif
    for (I c = 0; c < 2; c++) { unsigned n = 0; for (int e = 0; e < 5; e++) n += T.cellFace(c, e); ASSUME(n > 0); T.start[c] = n > 1 && (CASE != 0) ? (I)sx_pick(sx_i64("start", 0, 1)) : 0; }
    UnstructuredMesh<2, I, double> m; buildMesh(m, T); addCells(m, T);
#if CASE == 0
    conn<1, 0>(m); conn<0, 1>(m); conn<2, 0>(m); conn<0, 2>(m); orig<2, 0>(m); orig<0, 2>(m);
#elif CASE == 7
    conn<1, 1>(m); conn<0, 0>(m); conn<2, 2>(m);
#elif CASE == 1
    conn<2, 1>(m); conn<1, 2>(m); conn<2, 0>(m); orig<2, 1>(m); orig<1, 2>(m); neigh<2, 1, 2>(m); neigh<1, 2, 1>(m); applied<2, 1>(m); applied<0, 2>(m); conn<2, 2>(m);
#else
    neigh<2, 0, 2>(m);
#endif
#else
    // 3D; CASE 3: symbolic vertices of an edge, 4: symbolic edges of a face, 5: symbolic cells of the faces, 6: as 4 with reserved subelements
    T = twoTets();
#if CASE == 3
    for (int k = 0; k < 2; k++) T.edge[5][k] = (I)sx_i64("v", 0, 4);
#elif CASE == 4 || CASE == 6
    for (int k = 0; k < 2; k++) T.face[3][k] = (I)sx_i64("e", 0, 8);
#elif CASE == 5
    for (int e : {0, 2, 5, 6}) { if (e == 2 && !DEEP) continue; int c = (int)sx_pick(sx_i64("cells", 0, 5)); T.fl[e] = c == 0 || c == 2 || c == 4 ? 0 : c == 1 || c == 3 ? 1 : NONE; T.fr[e] = c == 2 ? 1 : c == 3 || c == 5 ? 0 : NONE; }
    for (I c = 0; c < 2; c++) T.start[c] = (I)sx_pick(sx_i64("start", 0, 1));
#endif
#if CASE == 6
    UnstructuredMesh<3, I, double, 5> m;
#else
    UnstructuredMesh<3, I, double> m;
#endif
    buildMesh(m, T); addFaces(m, T); addCells(m, T);
#if CASE == 3
    conn<1, 0>(m); conn<0, 1>(m); conn<2, 0>(m); conn<3, 0>(m); conn<0, 3>(m); orig<3, 0>(m); orig<2, 0>(m); neigh<1, 0, 1>(m); applied<3, 0>(m); applied<0, 2>(m);
#elif CASE == 4 || CASE == 6
    conn<2, 1>(m); conn<1, 2>(m); conn<3, 1>(m); conn<1, 3>(m); orig<2, 1>(m); orig<1, 3>(m); neigh<2, 1, 2>(m); applied<1, 2>(m); applied<3, 1>(m);
#elif CASE == 5
    conn<3, 2>(m); conn<2, 3>(m); orig<3, 2>(m); orig<2, 3>(m); neigh<3, 2, 3>(m); neigh<3, 0, 1>(m); applied<3, 2>(m); applied<2, 3>(m); conn<3, 3>(m);
#endif
#endif
    sx_reach("end");
}
