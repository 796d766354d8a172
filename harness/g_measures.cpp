// Measures of edges, faces and cells.
#include "geo.h"
#ifndef CASE
#define CASE 0
#endif
#ifndef PERM
#define PERM 0
#endif
#ifndef METHOD
#define METHOD METHOD_DEFAULT
#endif
static I zero(I) { return 0; }
#if CASE == 1 || CASE == 2
static double volume0(const Geo3& g, I c) { // six times the volume of the concrete shape: pyramids over fans of its faces from an inner point
    auto P = [&](I k) { return Vertex<3, double>{(double)g.p[k][0], (double)g.p[k][1], (double)g.p[k][2]}; };
    std::set<I> vs; for (I f : g.cf[c]) for (I k : g.fv[f]) vs.insert(k); Vertex<3, double> o{}; for (I k : vs) for (int j = 0; j < 3; j++) o[j] += P(k)[j] / (double)vs.size();
    double s = 0; for (I f : g.cf[c]) { const auto& v = g.fv[f]; double w = 0; for (size_t k = 1; k + 1 < v.size(); k++) w += det3(sub<3>(P(v[0]), o), sub<3>(P(v[k]), o), sub<3>(P(v[k + 1]), o)); s += w < 0 ? -w : w; }
    return s;
}
#endif
template<class V> static void square(double m, double s, const char* name, const V&) { sx_assert_close(m * m, s, name); ASSERT(m >= 0, "no measure is negative"); }
extern "C" void sx_main() {
#if CASE == 0
    // 2D: convex polygons under an arbitrary affine map
    Geo2 g = FLAT; auto a = frame<2>(0x3f); auto pos = place(g, a); double det = a[0][0] * a[1][1] - a[0][1] * a[1][0]; ASSUME(det != 0);
    int fl = choose(2); UnstructuredMesh<2, I, double> m; build(m, g, pos, [](I f) { return f % 3 == 1; }, [&](I e) { return (e + fl) % 2 == 1; }, zero); m.initializeCenters();
    auto r = choose(2) ? computeMeasures<METHOD_DEFAULT>(m) : computeMeasures<METHOD_TESSELLATED>(m); auto r2 = m.computeElementMeasures();
    for (I i = 0; i < g.e.size(); i++) { auto d = sub<2>(pos[g.e[i][1]], pos[g.e[i][0]]); square(r.getDataByDim<1>()[i], dotv(d, d), "the measure of an edge is its length", d); }
    for (I c = 0; c < g.cf.size(); c++) { double s = 0; const auto& v = g.fv[c]; for (size_t k = 0; k < v.size(); k++) { auto& p = g.p[v[k]]; auto& q = g.p[v[(k + 1) % v.size()]]; s += p[0] * q[1] - p[1] * q[0]; } s /= 2;
        square(r.getDataByDim<2>()[c], s * s * det * det, "the measure of a polygon is its area", a); }
    for (auto& c : m.getCells()) ASSERT(r2[c] == r[c], "the mesh computes the same measures"); for (auto& c : m.getFaces()) ASSERT(r2[c] == r[c], "the mesh computes the same measures");
#elif CASE == 1
    // 3D: convex polyhedra under every linear map up to rotation, METHOD chosen
    Geo3 g = geoShape(SHAPE); auto a = triFrame(PERM, true, OFFS); auto pos = place(g, a); double det = det3(a[0], a[1], a[2]);
    int fl = choose(2), ro = choose(2); MESH3 m; build(m, g, pos, [](I f) { return f % 3 == 1; }, [&](I e) { return (e + fl) % 2 == 1; }, [&](I f) { return ro ? f % 3 : 0; }); m.initializeCenters<METHOD>();
    auto r = computeMeasures<METHOD>(m);
    for (I i = 0; i < g.e.size(); i++) { auto d = sub<3>(pos[g.e[i][1]], pos[g.e[i][0]]); square(r.getDataByDim<1>()[i], dotv(d, d), "the measure of an edge is its length", d); }
    for (I i = 0; i < g.fv.size(); i++) { const auto& v = g.fv[i]; Vertex<3, double> n{}; for (size_t k = 1; k + 1 < v.size(); k++) n += crossv(sub<3>(pos[v[k]], pos[v[0]]), sub<3>(pos[v[k + 1]], pos[v[0]])); square(r.getDataByDim<2>()[i], dotv(n, n) / 4, "the measure of a planar face is its area", n); }
    for (I c = 0; c < g.cf.size(); c++) { double s = volume0(g, c) / 6; square(r.getDataByDim<3>()[c], s * s * det * det, "the measure of a convex polyhedron is its volume", a); }
    auto r2 = m.computeElementMeasures<METHOD>(); for (auto& c : m.getCells()) ASSERT(r2[c] == r[c], "the mesh computes the same measures"); for (auto& c : m.getFaces()) ASSERT(r2[c] == r[c], "the mesh computes the same measures");
#elif CASE == 3
    // 4D simplex, triangular frame
    std::array<Vertex<4, double>, 5> a; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { bool sy = (MASK >> (i * 4 + j)) & 1; a[i][(j + PERM) % 4] = j > i ? 0 : sy ? symReal("m", -4, 4) : i == j ? i + 1 : OFF(i, j); if (i == j && sy) ASSUME(a[i][(j + PERM) % 4] > 0); }
    std::vector<Vertex<4, double>> pos(5); for (int j = 0; j < 4; j++) pos[0][j] = symReal("o", -4, 4); for (int i = 0; i < 4; i++) pos[i + 1] = lin(1, pos[0], 1, a[i]);
    UnstructuredMesh<4, I, double> m; build4(m, pos); auto c = computeCenters<METHOD_DEFAULT>(m); auto r = computeMeasures<METHOD_DEFAULT>(c, m); I n1 = 0, n2 = 0;
    for (I i = 0; i < 5; i++) for (I j = i + 1; j < 5; j++) { auto d = sub<4>(pos[j], pos[i]); square(r.getDataByDim<1>()[n1++], dotv(d, d), "the measure of an edge is its length", d); }
    for (I i = 0; i < 5; i++) for (I j = i + 1; j < 5; j++) for (I k = j + 1; k < 5; k++) { auto d = sub<4>(pos[j], pos[i]), e = sub<4>(pos[k], pos[i]); square(r.getDataByDim<2>()[n2++], (dotv(d, d) * dotv(e, e) - dotv(d, e) * dotv(d, e)) / 4, "the measure of a triangle is its area", d); }
    for (I o = 0; o < 5; o++) { std::vector<Vertex<4, double>> v; for (I k = 0; k < 5; k++) if (k != o) v.push_back(pos[k]); auto x = sub<4>(v[1], v[0]), y = sub<4>(v[2], v[0]), z = sub<4>(v[3], v[0]);
        double xx = dotv(x, x), xy = dotv(x, y), xz = dotv(x, z), yy = dotv(y, y), yz = dotv(y, z), zz = dotv(z, z); square(r.getDataByDim<3>()[o], (xx * (yy * zz - yz * yz) - xy * (xy * zz - yz * xz) + xz * (xy * yz - yy * xz)) / 36, "the measure of a tetrahedron is its volume", x); }
    double det = 1; for (int i = 0; i < 4; i++) det *= a[i][(i + PERM) % 4]; square(r.getDataByDim<4>()[0], det * det / 576, "the measure of a simplex is its volume", a);
#endif
    sx_reach("end");
}
