// Centers of edges, faces and cells.
#include "geo.h"
#ifndef CASE
#define CASE 0
#endif
#ifndef SHAPES
#define SHAPES choose(4)
#endif
#ifndef PERM
#define PERM 0
#endif
template<unsigned D> static void eq(const Vertex<D, double>& a, const Vertex<D, double>& b, const char* m) { for (unsigned i = 0; i < D; i++) sx_assert_close(a[i], b[i], m); }
template<unsigned D> static Vertex<D, double> mean(const std::vector<Vertex<D, double>>& v) { Vertex<D, double> r; for (unsigned i = 0; i < D; i++) { double s = 0; for (auto& x : v) s += x[i]; r[i] = s / (double)v.size(); } return r; }
static bool no(I) { return false; }
static I zero(I) { return 0; }
template<unsigned D> static std::vector<Vertex<D, double>> freePoints(size_t n) { std::vector<Vertex<D, double>> r(n); for (auto& v : r) for (unsigned i = 0; i < D; i++) v[i] = symReal("x"); return r; }
extern "C" void sx_main() {
#if CASE == 0
    // 3D, every coordinate free, default method
    Geo3 g = geoShape(choose(4) + 1); auto pos = freePoints<3>(g.p.size());
    MESH3 m; build(m, g, pos, [](I f) { return f % 3 == 1; }, [](I e) { return e % 2 == 1; }, zero);
    auto c = computeCenters<METHOD_DEFAULT>(m);
    ASSERT(c.getDataByDim<1>().size() == g.e.size() && c.getDataByDim<2>().size() == g.fv.size() && c.getDataByDim<3>().size() == g.cf.size(), "one center per element");
    std::vector<Vertex<3, double>> ec, fc;
    for (I i = 0; i < g.e.size(); i++) { ec.push_back(mean<3>({pos[g.e[i][0]], pos[g.e[i][1]]})); eq<3>(c.getDataByDim<1>()[i], ec[i], "the center of an edge is its midpoint"); }
    for (I i = 0; i < g.fv.size(); i++) { std::vector<Vertex<3, double>> l; for (I k : g.fe[i]) l.push_back(ec[k]); fc.push_back(mean<3>(l)); eq<3>(c.getDataByDim<2>()[i], fc[i], "the center of a face is the mean of its edges' centers"); }
    for (I i = 0; i < g.cf.size(); i++) { std::vector<Vertex<3, double>> l; for (I k : g.cf[i]) l.push_back(fc[k]); eq<3>(c.getDataByDim<3>()[i], mean<3>(l), "the center of a cell is the mean of its faces' centers"); }
    m.initializeCenters(); auto again = m.computeElementCenters();
    for (auto& f : m.getFaces()) { eq<3>(f.getCenter(), c[f], "initializeCenters stores the face centers"); eq<3>(again[f], c[f], "the mesh computes the same centers"); }
    for (auto& f : m.getCells()) { eq<3>(f.getCenter(), c[f], "initializeCenters stores the cell centers"); eq<3>(again[f], c[f], "the mesh computes the same centers"); }
    for (auto& f : m.getVertices()) eq<3>(f, pos[f.getIndex()], "the vertices are not changed");
#elif CASE == 1
    // 2D
    Geo2 g = FLAT; auto pos = freePoints<2>(g.p.size());
    UnstructuredMesh<2, I, double> m; build(m, g, pos, [](I f) { return f % 3 == 1; }, [](I e) { return e % 2 == 1; }, zero);
    auto c = computeCenters<METHOD_DEFAULT>(m); if (choose(2)) c = computeCenters<METHOD_TESSELLATED>(m); std::vector<Vertex<2, double>> ec;
    for (I i = 0; i < g.e.size(); i++) { ec.push_back(mean<2>({pos[g.e[i][0]], pos[g.e[i][1]]})); eq<2>(c.getDataByDim<1>()[i], ec[i], "the center of an edge is its midpoint"); }
    for (I i = 0; i < g.cf.size(); i++) { std::vector<Vertex<2, double>> l; for (I k : g.cf[i]) l.push_back(ec[k]); eq<2>(c.getDataByDim<2>()[i], mean<2>(l), "the center of a cell is the mean of its edges' centers"); }
    m.initializeCenters(); for (auto& f : m.getFaces()) eq<2>(f.getCenter(), c[f], "initializeCenters stores the edge centers"); for (auto& f : m.getCells()) eq<2>(f.getCenter(), c[f], "initializeCenters stores the cell centers");
    UnstructuredMesh<2, I, double> m2; build(m2, g, pos, no, no, zero); m2.initializeCenters(c); for (auto& f : m2.getFaces()) eq<2>(f.getCenter(), c[f], "initializeCenters takes given centers"); for (auto& f : m2.getCells()) eq<2>(f.getCenter(), c[f], "initializeCenters takes given centers");
#elif CASE == 2
    // 3D tessellated: the center of a planar face is its centroid, for every affine image of the shape
    Geo3 g = geoShape(SHAPES); auto a = triFrame(PERM, true, OFFS); auto pos = place(g, a);
    MESH3 m; build(m, g, pos, no, [](I e) { return e % 2 == 1; }, zero);
    auto c = computeCenters<METHOD_TESSELLATED>(m);
    for (I i = 0; i < g.fv.size(); i++) { const auto& v = g.fv[i]; // centroid by a fan of triangles from the first vertex, areas from the concrete shape
        double w = 0; Vertex<3, double> s{}; auto P = [&](I k) { return Vertex<3, double>{(double)g.p[v[k]][0], (double)g.p[v[k]][1], (double)g.p[v[k]][2]}; }; auto n0 = crossv(sub<3>(P(1), P(0)), sub<3>(P(2), P(0)));
        for (size_t k = 1; k + 1 < v.size(); k++) { double ar = dotv(crossv(sub<3>(P(k), P(0)), sub<3>(P(k + 1), P(0))), n0); w += ar; for (int j = 0; j < 3; j++) s[j] += ar * (pos[v[0]][j] + pos[v[k]][j] + pos[v[k + 1]][j]) / 3.0; }
        for (int j = 0; j < 3; j++) s[j] = s[j] / w; eq<3>(c.getDataByDim<2>()[i], s, "the tessellated center of a planar face is its centroid"); }
    for (I i = 0; i < g.cf.size(); i++) { std::vector<Vertex<3, double>> l; for (I k : g.cf[i]) l.push_back(c.getDataByDim<2>()[k]); eq<3>(c.getDataByDim<3>()[i], mean<3>(l), "the center of a cell is the mean of its faces' centers"); }
    m.initializeCenters<METHOD_TESSELLATED>(); for (auto& f : m.getFaces()) eq<3>(f.getCenter(), c[f], "initializeCenters stores the face centers");
#elif CASE == 3
    // 4D simplex with free vertices
    UnstructuredMesh<4, I, double> m; auto pos = freePoints<4>(5); build4(m, pos); I n1 = 0, n2 = 0;
    auto c = computeCenters<METHOD_DEFAULT>(m);
    for (I a = 0; a < 5; a++) for (I b = a + 1; b < 5; b++) eq<4>(c.getDataByDim<1>()[n1++], mean<4>({pos[a], pos[b]}), "the center of an edge is its midpoint");
    for (I a = 0; a < 5; a++) for (I b = a + 1; b < 5; b++) for (I d = b + 1; d < 5; d++) eq<4>(c.getDataByDim<2>()[n2++], mean<4>({pos[a], pos[b], pos[d]}), "the center of a triangle is the mean of its vertices");
    for (I o = 0; o < 5; o++) { std::vector<Vertex<4, double>> l; for (I k = 0; k < 5; k++) if (k != o) l.push_back(pos[k]); eq<4>(c.getDataByDim<3>()[o], mean<4>(l), "the center of a tetrahedron is the mean of its vertices"); }
    eq<4>(c.getDataByDim<4>()[0], mean<4>(pos), "the center of a simplex is the mean of its vertices");
    m.initializeCenters(); for (auto& x : m.getFaces()) eq<4>(x.getCenter(), c[x], "initializeCenters stores the face centers"); eq<4>(m.getCells()[0].getCenter(), c.getDataByDim<4>()[0], "initializeCenters stores the cell centers");
#endif
    sx_reach("end");
}
