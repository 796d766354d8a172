// Normals of faces, distances and differences of cell centers, orientation of edges.
#include "geo.h"
#ifndef CASE
#define CASE 0
#endif
#ifndef PERM
#define PERM 0
#endif
#ifndef METHOD
#define METHOD METHOD_DEFAULT
#endif
#ifndef SHAPE
#define SHAPE 0
#endif
static I zero(I) { return 0; }
template<unsigned D> static Vertex<D, double> freeV(double lo = -8, double hi = 8) { Vertex<D, double> v; for (unsigned i = 0; i < D; i++) v[i] = symReal("c", lo, hi); return v; }
// arbitrary centers, arbitrary presence of cells on both sides of each face
template<unsigned D> static void distances(int faces) {
    UnstructuredMesh<D, I, double> m; std::vector<Vertex<D, double>> cc, fc; int ncell = 3;
    for (int i = 0; i < ncell; i++) { cc.push_back(freeV<D>()); m.getCells().push_back(typename UnstructuredMesh<D, I, double>::Cell((I)i)); m.getCells()[i].setCenter(cc[i]); }
    std::vector<std::array<I, 2>> s; int bnd = choose(2);
    for (int f = 0; f < faces; f++) { fc.push_back(freeV<D>()); m.getFaces().push_back(typename UnstructuredMesh<D, I, double>::Face((I)f)); m.getFaces()[f].setCenter(fc[f]); I l = choose(ncell + 1), r = choose(ncell + 1); if (l == (I)ncell) l = NONE; if (r == (I)ncell) r = NONE; s.push_back({{l, r}}); m.getFaces()[f].setCellLeftIndex(l); m.getFaces()[f].setCellRightIndex(r); }
    std::vector<std::array<Vertex<D, double>, 2>> e(faces); for (int f = 0; f < faces; f++) for (int k = 0; k < 2; k++) e[f][k] = s[f][k] == NONE ? fc[f] : cc[s[f][k]];
    if (bnd) { m.setupBoundaryCells(); m.setupBoundaryCellsCenters(); if (choose(2)) { for (auto& b : m.getBoundaryCells()) b.setCenter(freeV<D>()); for (int f = 0; f < faces; f++) for (int k = 0; k < 2; k++) { I i = k ? m.getFaces()[f].getCellRightIndex() : m.getFaces()[f].getCellLeftIndex(); if (isBoundaryIndex(i)) e[f][k] = m.getBoundaryCells()[extractBoundaryIndex(i)].getCenter(); } sx_reach("moved"); } }
    auto d = computeCellsDistance(m); auto v = computeCellsCenterDifference(m); ASSERT(d.template getDataByPos<0>().size() == (size_t)faces && v.template getDataByPos<0>().size() == (size_t)faces, "one value per face");
    for (int f = 0; f < faces; f++) { bool none = s[f][0] == NONE && s[f][1] == NONE; auto w = sub<D>(e[f][1], e[f][0]); double x = d.template getDataByPos<0>()[f];
        if (none && !bnd) { ASSERT(x == 0, "no distance without cells"); continue; }
        ASSERT(x >= 0, "a distance is not negative"); sx_assert_close(x * x, dotv(w, w), "the distance of the centers of both sides");
        for (unsigned i = 0; i < D; i++) sx_assert_close(v.template getDataByPos<0>()[f][i], w[i], "the difference points from the left to the right center"); }
}
extern "C" void sx_main() {
#if CASE == 0
    // 2D: the whole mesh under an arbitrary affine map
    Geo2 g = FLAT; auto a = frame<2>(0x3f); auto pos = place(g, a); ASSUME(a[0][0] * a[1][1] - a[0][1] * a[1][0] != 0); int fl = choose(2);
    UnstructuredMesh<2, I, double> m; build(m, g, pos, [](I f) { return f % 3 == 1; }, [&](I e) { return (e + fl) % 2 == 1; }, zero); m.initializeCenters();
    auto n = choose(2) ? computeFaceNormals<METHOD_DEFAULT>(m) : m.computeFaceNormals();
    for (auto& e : m.getEdges()) { auto d = sub<2>(pos[e.getVertexBIndex()], pos[e.getVertexAIndex()]); auto x = n[e]; sx_assert_close(dotv(x, x), 1, "a normal is a unit vector"); sx_assert_close(dotv(x, d), 0, "a normal is orthogonal to its edge"); ASSERT(x[0] * d[1] - x[1] * d[0] > 0, "the normal points to the right of its edge"); }
    for (auto& c : m.getCells()) for (I k : g.cf[c.getIndex()]) { auto& e = m.getEdges()[k]; auto A = sub<2>(pos[e.getVertexAIndex()], c.getCenter()), B = sub<2>(pos[e.getVertexBIndex()], c.getCenter()); bool l = A[0] * B[1] - A[1] * B[0] > 0;
        ASSERT(edgeIsLeft(m, c, e) == l && edgeIsLeft(m, c.getIndex(), k) == l, "an edge is left of a cell when it runs counterclockwise around it"); }
#elif CASE == 1
    // 3D
    Geo3 g = geoShape(SHAPE); auto a = triFrame(PERM, true, OFFS); auto pos = place(g, a);
    int fl = choose(2), sd = choose(3), bnd = choose(2); MESH3 m; auto fc = build(m, g, pos, [&](I f) { return sd == 2 || (sd == 1 && f % 2); }, [&](I e) { return (e + fl) % 2 == 1; }, [&](I f) { return fl ? f % 3 : 0; }); m.initializeCenters<METHOD>();
    if (bnd) m.setupBoundaryCells();
    auto n = computeFaceNormals<METHOD>(m); auto nm = m.computeFaceNormals<METHOD>();
    for (auto& f : m.getFaces()) { I i = f.getIndex(); const auto& v = g.fv[i]; auto x = n[f]; ASSERT(nm[f] == x, "the mesh computes the same normals"); sx_assert_close(dotv(x, x), 1, "a normal is a unit vector");
        for (size_t k = 1; k < v.size(); k++) sx_assert_close(dotv(x, sub<3>(pos[v[k]], pos[v[0]])), 0, "a normal is orthogonal to its face");
        if (fc[i][0] != NONE) ASSERT(dotv(x, sub<3>(f.getCenter(), m.getCells()[fc[i][0]].getCenter())) > 0, "a normal points away from the left cell");
        if (fc[i][1] != NONE) ASSERT(dotv(x, sub<3>(m.getCells()[fc[i][1]].getCenter(), f.getCenter())) > 0, "a normal points towards the right cell"); }
#elif CASE == 2
    distances<2>(2); 
#elif CASE == 3
    distances<3>(2);
#elif CASE == 4
    distances<4>(1);
#elif CASE == 5
    // 3D: orientation of the edges of a face seen against its normal
    Geo3 g = geoShape(SHAPE); auto a = triFrame(PERM, true, OFFS); auto pos = place(g, a);
    int fl = choose(2), sd = choose(2); MESH3 m; auto fc = build(m, g, pos, [&](I f) { return (f + sd) % 2; }, [&](I e) { return (e + fl) % 2 == 1; }, [&](I f) { return fl ? f % 3 : 0; }); m.initializeCenters();
    auto o = edgesOrientation(m);
    for (auto& f : m.getFaces()) { I i = f.getIndex(); ASSERT(o[f].size() == g.fe[i].size(), "one flag per edge of the face");
        bool left = fc[i][0] != NONE; auto dir = left ? sub<3>(f.getCenter(), m.getCells()[fc[i][0]].getCenter()) : sub<3>(m.getCells()[fc[i][1]].getCenter(), f.getCenter());
        for (size_t k = 0; k < o[f].size(); k++) { I ei = f.getSubelements()[k]; auto& e = m.getEdges()[ei]; auto A = sub<3>(pos[e.getVertexAIndex()], f.getCenter()), B = sub<3>(pos[e.getVertexBIndex()], f.getCenter()); bool l = det3(A, B, dir) > 0; // right-handed around the normal
            ASSERT(o[f][k] == l, "an edge is left of a face when it runs counterclockwise seen against the normal"); if (k == 1) { typedef std::decay_t<decltype(e.getIndex())> X; ASSERT(edgeIsLeft(m, (X)i, (X)ei) == l, "the same answer for a single edge"); }; } }
#elif CASE == 6
    // 4D simplex, triangular frame
    std::array<Vertex<4, double>, 5> a; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { bool sy = (MASK >> (i * 4 + j)) & 1; a[i][(j + PERM) % 4] = j > i ? 0 : sy ? symReal("m", -4, 4) : i == j ? i + 1 : OFF(i, j); if (i == j && sy) ASSUME(a[i][(j + PERM) % 4] > 0); }
    std::vector<Vertex<4, double>> pos(5); for (int j = 0; j < 4; j++) pos[0][j] = symReal("o", -4, 4); for (int i = 0; i < 4; i++) pos[i + 1] = lin(1, pos[0], 1, a[i]);
    UnstructuredMesh<4, I, double> m; build4(m, pos); int left = choose(2); auto& fs = m.getFaces(); for (auto& f : fs) { f.setCellLeftIndex(left ? 0 : NONE); f.setCellRightIndex(left ? NONE : 0); if (!left) f.setNextBElem((f.getIndex() + 1) % 5, 0); }
    auto c = computeCenters<METHOD_DEFAULT>(m); auto n = computeFaceNormals<METHOD_DEFAULT>(c, m); auto n2 = m.computeFaceNormals();
    for (I o = 0; o < 5; o++) { auto x = n.getDataByPos<0>()[o]; ASSERT(n2.getDataByPos<0>()[o] == x, "the mesh computes the same normals"); sx_assert_close(dotv(x, x), 1, "a normal is a unit vector"); int p0 = o == 0; for (int k = 0; k < 5; k++) if (k != (int)o) sx_assert_close(dotv(x, sub<4>(pos[k], pos[p0])), 0, "a normal is orthogonal to its face");
        double s = dotv(x, sub<4>(pos[o], pos[p0])); ASSERT(left ? s > 0 : s < 0, "a normal points towards the left cell in more than three dimensions"); }
#endif
    sx_reach("end");
}
