// Colouring of mesh elements: proper, economical, any size.
#include "topo.h"
#ifndef CASE
#define CASE 0
#endif
#ifndef DEEP
#define DEEP 0
#endif
static Topo T;
template<unsigned A, unsigned B> static bool adjacent(unsigned i, unsigned j) { bool r = false; for (unsigned b = 0; b < T.count(B); b++) r = r | (T.touch(A, i, B, b) & T.touch(A, j, B, b)); return r; }
template<unsigned A, unsigned B, class R> static void proper(const R& r, const char* what) {
    auto& c = r.template getDataByPos<0>(); ASSERT(c.size() == T.count(A), "every element has a colour");
    for (unsigned i = 0; i < c.size(); i++) for (unsigned j = 0; j < i; j++) ASSERT(!(adjacent<A, B>(i, j) & (c[i] == c[j])), what);
}
template<unsigned A, unsigned B, class M> static void greedy(const M& m) {
    auto r = MeshColoring<A, B>::color(m); proper<A, B>(r, "greedy colouring is proper");
    auto& c = r.template getDataByPos<0>();
    for (unsigned i = 0; i < c.size(); i++) { unsigned n = 0; for (unsigned j = 0; j < i; j++) n += adjacent<A, B>(i, j); ASSERT(c[i] <= n, "greedy colouring uses no more colours than the neighbors coloured before require"); }
    auto r2 = m.template coloring<A, B>(); proper<A, B>(r2, "greedy colouring is proper"); for (unsigned i = 0; i < c.size(); i++) ASSERT(r2.template getDataByPos<0>()[i] == c[i], "colouring is repeatable");
    sx_reach("greedy");
}
template<unsigned A, unsigned B, class M> static void random(const M& m) {
    auto g = MeshColoring<A, B>::color(m); unsigned mx = 0; for (unsigned x : g.template getDataByPos<0>()) if (x > mx) mx = x;
    auto r = MeshColoring<A, B, METHOD_RANDOM>::color(m, 7u); proper<A, B>(r, "random colouring is proper");
    for (unsigned x : r.template getDataByPos<0>()) ASSERT(x <= mx, "random colouring uses no more colours than the greedy one");
    auto r2 = sx_pick(sx_i64("seed", 0, 1)) ? m.template coloring<A, B, METHOD_RANDOM>(11u) : m.template coloring<A, B, METHOD_RANDOM>(); proper<A, B>(r2, "random colouring by the mesh itself is proper");
    for (unsigned x : r2.template getDataByPos<0>()) ASSERT(x <= mx, "random colouring by the mesh itself uses no more colours than the greedy one");
    sx_reach("random");
}
extern "C" void sx_main() {
#if CASE == 0 // 2D, symbolic edge ends
    T = twoTris(); for (int e : {1, 4}) for (int k = 0; k < 2; k++) if (e == 1 || k == 0 || DEEP) T.edge[e][k] = (I)sx_i64("v", 0, 3);
    UnstructuredMesh<2, I, double> m; buildMesh(m, T); addCells(m, T);
    switch (sx_pick(sx_i64("dims", 0, 3))) { case 0: greedy<1, 0>(m); break; case 1: greedy<0, 1>(m); break; case 2: greedy<0, 2>(m); break; case 3: greedy<2, 0>(m); break; }
#elif CASE == 1 // 2D, random choices
    T = twoTris(); T.nc = 0; T.nv = 6; static const I E[5][2] = {{0,1},{0,2},{0,3},{3,4},{4,5}}; for (int i = 0; i < 5; i++) for (int k = 0; k < 2; k++) T.edge[i][k] = E[i][k];
    T.edge[4][1] = (I)sx_i64("v", 0, 5); if (DEEP) T.edge[3][1] = (I)sx_i64("w", 0, 5);
    UnstructuredMesh<2, I, double> m; buildMesh(m, T);
    switch (sx_pick(sx_i64("dims", 0, 1))) { case 0: random<1, 0>(m); break; case 1: random<0, 1>(m); break; }
#elif CASE == 2 // 3D, symbolic edges of a face
    T = twoTets(); for (int k = 0; k < 2; k++) T.face[3][k] = (I)sx_i64("e", 0, 8);
    UnstructuredMesh<3, I, double> m; buildMesh(m, T); addFaces(m, T); addCells(m, T);
    switch (sx_pick(sx_i64("dims", 0, 4))) { case 0: greedy<2, 1>(m); break; case 1: greedy<1, 2>(m); break; case 2: greedy<3, 2>(m); break; case 3: greedy<2, 3>(m); break; case 4: greedy<2, 0>(m); break; }
#elif CASE == 3 // more colours than the initial reserve: an edge star and a polygon
    unsigned sizes[] = {1, 15, 16, 17, 18, 32, 33, 34, 65, 260, 130, 520}; unsigned n = sizes[sx_pick(sx_i64("size", 0, DEEP ? 11 : 9))];
    UnstructuredMesh<2, I, double> m; bool star = sx_pick(sx_i64("star", 0, 1)) != 0; bool rnd = sx_pick(sx_i64("random", 0, 1)) != 0;
    unsigned nv = star ? n + 1 : n; if (!star && n < 3) return;
    for (I i = 0; i < nv; i++) m.getVertices().push_back({i, {(double)i, 0}});
    I centre = star ? (I)sx_pick(sx_i64("centre", 0, 1)) * n : 0; bool flip = sx_pick(sx_i64("flip", 0, 1)) != 0;
    for (I i = 0; i < n; i++) { I a = star ? centre : i, b = star ? (centre ? i : i + 1) : (i + 1) % n; if (flip) m.getEdges().push_back({i, b, a}); else m.getEdges().push_back({i, a, b}); }
    if (star) {
        auto r = rnd ? MeshColoring<1, 0, METHOD_RANDOM>::color(m, 3u) : MeshColoring<1, 0>::color(m);
        std::vector<bool> used(n); for (unsigned i = 0; i < n; i++) { unsigned c = r.getDataByPos<0>()[i]; ASSERT(c < n, "n mutually adjacent elements need exactly n colours"); ASSERT(!used[c], "mutually adjacent elements have different colours"); used[c] = true; }
    } else {
        for (I i = 0; i < n; i++) m.getEdges()[i].setNextBElem((i + 1) % n, 0); m.getCells().push_back(0); m.getCells()[0].setBoundaryElementIndex(0);
        auto r = rnd ? MeshColoring<0, 2, METHOD_RANDOM>::color(m, 3u) : MeshColoring<0, 2>::color(m);
        std::vector<bool> used(n); for (unsigned i = 0; i < n; i++) { unsigned c = r.getDataByPos<0>()[i]; ASSERT(c < n, "n mutually adjacent elements need exactly n colours"); ASSERT(!used[c], "mutually adjacent elements have different colours"); used[c] = true; }
    }
    sx_reach("big");
#elif CASE == 4 // empty mesh
    UnstructuredMesh<3, I, double> m; ASSERT((MeshColoring<3, 0>::color(m).getDataByPos<0>().empty()), "an empty mesh has no colours"); ASSERT((MeshColoring<0, 3>::color(m).getDataByPos<0>().empty()), "an empty mesh has no colours"); ASSERT((MeshColoring<3, 0, METHOD_RANDOM>::color(m).getDataByPos<0>().empty()), "an empty mesh has no colours"); ASSERT((MeshColoring<1, 2, METHOD_RANDOM>::color(m).getDataByPos<0>().empty()), "an empty mesh has no colours");
#endif
    sx_reach("end");
}
