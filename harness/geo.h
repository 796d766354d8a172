// Concrete polyhedral / polygonal meshes under a symbolic affine map, with symbolic sides and edge directions.
#ifndef GEO_H
#define GEO_H
#include "common.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <algorithm>
#include <map>
typedef uint64_t I;
static const I NONE = ~(I)0;
typedef std::vector<I> Vi_;
template<unsigned D> struct Geo {
    std::vector<std::array<int, D>> p; std::vector<std::array<I, 2>> e; std::vector<std::vector<I>> fv; // faces as vertex cycles (3D); 2D: cells as vertex cycles
    std::vector<std::vector<I>> fe, cf; // edges of faces, faces of cells (2D: edges of cells)
    I edgeOf(I a, I b) { for (I i = 0; i < e.size(); i++) if ((e[i][0] == a && e[i][1] == b) || (e[i][0] == b && e[i][1] == a)) return i; e.push_back({{a, b}}); return e.size() - 1; }
    I face(std::vector<I> c) { for (I i = 0; i < fv.size(); i++) { std::vector<I> x = fv[i], y = c; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x == y) return i; }
        std::vector<I> es; for (size_t k = 0; k < c.size(); k++) es.push_back(edgeOf(c[k], c[(k + 1) % c.size()])); fv.push_back(c); fe.push_back(es); return fv.size() - 1; }
};
typedef Geo<3> Geo3; typedef Geo<2> Geo2;
inline void addTet(Geo3& g, I a, I b, I c, I d) { g.cf.push_back({g.face({a, b, c}), g.face({a, b, d}), g.face({b, c, d}), g.face({a, c, d})}); }
inline void addPyr(Geo3& g, I a, I b, I c, I d, I t) { g.cf.push_back({g.face({a, b, c, d}), g.face({a, b, t}), g.face({b, c, t}), g.face({c, d, t}), g.face({d, a, t})}); }
inline void addPrism(Geo3& g, I a, I b, I c, I d, I e, I f) { g.cf.push_back({g.face({a, b, c}), g.face({a, b, e, d}), g.face({d, e, f}), g.face({b, c, f, e}), g.face({c, a, d, f})}); }
inline Geo3 geoTets() { Geo3 g; g.p = {{{0,0,0}}, {{1,0,0}}, {{0,1,0}}, {{0,0,1}}, {{1,1,-1}}}; addTet(g, 0, 1, 2, 3); addTet(g, 0, 1, 2, 4); return g; }
inline Geo3 geoTet() { Geo3 g; g.p = {{{0,0,0}}, {{1,0,0}}, {{0,1,0}}, {{0,0,1}}}; addTet(g, 0, 1, 2, 3); return g; }
// a prism over a triangle with a pyramid on one of its quadrilaterals
inline Geo3 geoPrismPyr() { Geo3 g; g.p = {{{0,0,0}}, {{2,0,0}}, {{0,3,0}}, {{0,0,2}}, {{2,0,2}}, {{0,3,2}}, {{1,-3,1}}}; addPrism(g, 0, 1, 2, 3, 4, 5); addPyr(g, 0, 1, 4, 3, 6); return g; }
// a prism over a trapezoid (faces whose mean of vertices is not the centroid) 
inline Geo3 geoTrapez() { Geo3 g; g.p = {{{0,0,0}}, {{3,0,0}}, {{1,2,0}}, {{0,2,0}}, {{0,0,1}}, {{3,0,1}}, {{1,2,1}}, {{0,2,1}}};
    g.cf.push_back({g.face({0,1,2,3}), g.face({4,5,6,7}), g.face({0,1,5,4}), g.face({1,2,6,5}), g.face({2,3,7,6}), g.face({3,0,4,7})}); return g; }
// a prism over a pentagon (faces of five edges) with a pyramid on top
inline Geo3 geoPenta(bool cap = true) { Geo3 g; g.p = {{{0,0,0}}, {{3,0,0}}, {{4,2,0}}, {{2,4,0}}, {{0,3,0}}, {{0,0,1}}, {{3,0,1}}, {{4,2,1}}, {{2,4,1}}, {{0,3,1}}, {{2,1,3}}};
    Vi_ c{g.face({0,1,2,3,4}), g.face({5,6,7,8,9})}; for (I k = 0; k < 5; k++) c.push_back(g.face({k, (k + 1) % 5, (k + 1) % 5 + 5, k + 5})); g.cf.push_back(c);
    if (!cap) g.p.pop_back(); else { Vi_ d{g.face({5,6,7,8,9})}; for (I k = 0; k < 5; k++) d.push_back(g.face({k + 5, (k + 1) % 5 + 5, 10})); g.cf.push_back(d); } return g; }
// a prism over a polygon of nine vertices (faces of nine edges, a cell of eleven faces), and such a polygon with a triangle at its side
static const int NONA[9][2] = {{0,0}, {4,-1}, {8,0}, {11,3}, {12,7}, {10,11}, {6,13}, {2,12}, {-1,6}};
inline Geo3 geoNona() { Geo3 g; Vi_ lo, hi; for (int z = 0; z < 2; z++) for (I k = 0; k < 9; k++) { g.p.push_back({{NONA[k][0], NONA[k][1], 2 * z}}); (z ? hi : lo).push_back(9 * z + k); } Vi_ c{g.face(lo), g.face(hi)}; for (I k = 0; k < 9; k++) c.push_back(g.face({k, (k + 1) % 9, (k + 1) % 9 + 9, k + 9})); g.cf.push_back(c); return g; }
#ifndef OFFS
#define OFFS 7
#endif
#ifndef MESH3
#define MESH3 UnstructuredMesh<3, I, double>
#endif
#ifdef NINE
#define FLAT geoFlat9()
#else
#define FLAT geoFlat()
#endif
#ifndef CAP
#define CAP 1
#endif
inline Geo3 geoShape(int s) { return s == 0 ? geoTrapez() : s == 1 ? geoPrismPyr() : s == 2 ? geoTets() : s == 4 ? geoNona() : geoPenta(CAP); }
inline void addPolygon(Geo2& g, std::vector<I> c) { std::vector<I> es; for (size_t k = 0; k < c.size(); k++) es.push_back(g.edgeOf(c[k], c[(k + 1) % c.size()])); g.fv.push_back(c); g.cf.push_back(es); }
inline Geo2 geoFlat() { Geo2 g; g.p = {{{0,0}}, {{2,0}}, {{2,1}}, {{0,2}}, {{4,-1}}, {{5,1}}, {{3,3}}}; addPolygon(g, {0, 1, 2, 3}); addPolygon(g, {1, 4, 5, 2}); addPolygon(g, {2, 5, 6}); return g; }
inline Geo2 geoFlat9() { Geo2 g; Vi_ c; for (I k = 0; k < 9; k++) { g.p.push_back({{NONA[k][0], NONA[k][1]}}); c.push_back(k); } g.p.push_back({{13, 3}}); addPolygon(g, c); addPolygon(g, {3, 9, 4}); return g; }

// the same mesh with two faces, two edges or two cells numbered the other way round
template<unsigned D> static Geo<D> renumbered(const Geo<D>& g, int what, I a, I b) {
    Geo<D> h = g; auto sw = [&](I& x) { x = x == a ? b : x == b ? a : x; };
    if (what == 0) { std::swap(h.cf[a], h.cf[b]); if (D == 2) std::swap(h.fv[a], h.fv[b]); }
    else if (what == 1) { std::swap(h.e[a], h.e[b]); for (auto& l : D == 2 ? h.cf : h.fe) for (I& x : l) sw(x); }
    else { std::swap(h.fv[a], h.fv[b]); std::swap(h.fe[a], h.fe[b]); for (auto& l : h.cf) for (I& x : l) sw(x); }
    return h;
}
// a block of nx x ny x nz hexahedra, every second column (wedges) cut into two wedges; layers are numbered through
inline Geo3 geoGrid(I nx, I ny, I nz, bool wedges, std::vector<int>* kind = nullptr) {
    Geo3 g; std::map<Vi_, I> fn; std::map<std::pair<I, I>, I> en; auto V = [&](I x, I y, I z) { return (z * (ny + 1) + y) * (nx + 1) + x; };
    for (I z = 0; z <= nz; z++) for (I y = 0; y <= ny; y++) for (I x = 0; x <= nx; x++) g.p.push_back({{(int)(2 * x + (y == 1)), (int)(3 * y + z), (int)(2 * z)}});
    auto face = [&](Vi_ c) -> I { Vi_ k = c; std::sort(k.begin(), k.end()); auto it = fn.find(k); if (it != fn.end()) return it->second; std::vector<I> es;
        for (size_t i = 0; i < c.size(); i++) { I a = c[i], b = c[(i + 1) % c.size()]; auto ek = std::make_pair(std::min(a, b), std::max(a, b)); auto ei = en.find(ek); if (ei == en.end()) { ei = en.emplace(ek, g.e.size()).first; g.e.push_back({{a, b}}); } es.push_back(ei->second); }
        I id = g.fv.size(); fn[k] = id; g.fv.push_back(c); g.fe.push_back(es); return id; };
    for (I z = 0; z < nz; z++) for (I y = 0; y < ny; y++) for (I x = 0; x < nx; x++) {
        I b[4] = {V(x, y, z), V(x + 1, y, z), V(x + 1, y + 1, z), V(x, y + 1, z)}, t[4] = {V(x, y, z + 1), V(x + 1, y, z + 1), V(x + 1, y + 1, z + 1), V(x, y + 1, z + 1)};
        auto prism = [&](Vi_ q) { Vi_ lo, hi; for (I i : q) { lo.push_back(b[i]); hi.push_back(t[i]); } Vi_ fs{face(lo), face(hi)}; for (size_t i = 0; i < q.size(); i++) { size_t j = (i + 1) % q.size(); fs.push_back(face({lo[i], lo[j], hi[j], hi[i]})); } std::rotate(fs.begin(), fs.begin() + g.cf.size() % fs.size(), fs.end()); g.cf.push_back(fs); if (kind) kind->push_back((int)q.size()); };
        if (wedges && (x + y) % 2) { prism({0, 1, 2}); prism({0, 2, 3}); } else prism({0, 1, 2, 3}); }
    return g;
}
inline Geo2 geoGrid2(I nx, I ny) {
    Geo2 g; std::map<std::pair<I, I>, I> en; auto V = [&](I x, I y) { return y * (nx + 1) + x; };
    for (I y = 0; y <= ny; y++) for (I x = 0; x <= nx; x++) g.p.push_back({{(int)(2 * x + (y == 1)), (int)(3 * y)}});
    for (I y = 0; y < ny; y++) for (I x = 0; x < nx; x++) { Vi_ c{V(x, y), V(x + 1, y), V(x + 1, y + 1), V(x, y + 1)}, es; std::rotate(c.begin(), c.begin() + g.cf.size() % 4, c.end());
        for (int i = 0; i < 4; i++) { I a = c[i], b = c[(i + 1) % 4]; auto ek = std::make_pair(std::min(a, b), std::max(a, b)); auto ei = en.find(ek); if (ei == en.end()) { ei = en.emplace(ek, g.e.size()).first; g.e.push_back({{a, b}}); } es.push_back(ei->second); } g.fv.push_back(c); g.cf.push_back(es); }
    return g;
}

// builds the mesh; side(f) != 0: the first cell of face f is the right one; flip(e): the edge is stored backwards; rot: the face's edge list starts elsewhere
template<unsigned D, class M> struct Built { std::vector<std::array<I, 2>> fc; };
template<class M, unsigned D, class FS, class FE, class FR>
static std::vector<std::array<I, 2>> build(M& m, const Geo<D>& g, const std::vector<Vertex<D, double>>& pos, FS side, FE flip, FR rot) {
    for (I i = 0; i < pos.size(); i++) m.getVertices().push_back(typename M::Vertex(i, pos[i]));
    for (I i = 0; i < g.e.size(); i++) { bool r = flip(i); m.getEdges().push_back(typename M::Edge(i, g.e[i][r ? 1 : 0], g.e[i][r ? 0 : 1])); }
    buildFaces(m, g, rot);
    auto& fs = m.getFaces(); std::vector<std::array<I, 2>> fc(fs.size(), std::array<I, 2>{{NONE, NONE}});
    for (I c = 0; c < g.cf.size(); c++) for (I f : g.cf[c]) (fc[f][0] == NONE ? fc[f][0] : fc[f][1]) = c;
    for (I f = 0; f < fs.size(); f++) if (side(f)) std::swap(fc[f][0], fc[f][1]);
    for (I f = 0; f < fs.size(); f++) { fs[f].setCellLeftIndex(fc[f][0]); fs[f].setCellRightIndex(fc[f][1]); }
    for (I c = 0; c < g.cf.size(); c++) { m.getCells().push_back(typename M::Cell(c)); const auto& l = g.cf[c]; for (size_t k = 0; k < l.size(); k++) fs[l[k]].setNextBElem(l[(k + 1) % l.size()], c); m.getCells()[c].setBoundaryElementIndex(l[c % l.size()]); }
    return fc;
}
template<class M, class FR> static void buildFaces(M& m, const Geo<3>& g, FR rot) { for (I f = 0; f < g.fv.size(); f++) { m.getFaces().push_back(f); I n = g.fe[f].size(), s = rot(f); for (I k = 0; k < n; k++) m.getFaces()[f].getSubelements().addSubelement(g.fe[f][(k + s) % n]); } }
template<class M, class FR> static void buildFaces(M&, const Geo<2>&, FR) {}
template<unsigned D> static double dotv(const Vertex<D, double>& a, const Vertex<D, double>& b) { double s = 0; for (unsigned i = 0; i < D; i++) s += a[i] * b[i]; return s; }
static Vertex<3, double> crossv(const Vertex<3, double>& a, const Vertex<3, double>& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
template<unsigned D> static Vertex<D, double> sub(const Vertex<D, double>& a, const Vertex<D, double>& b) { Vertex<D, double> r; for (unsigned i = 0; i < D; i++) r[i] = a[i] - b[i]; return r; }
template<unsigned D> static Vertex<D, double> lin(double x, const Vertex<D, double>& a, double y, const Vertex<D, double>& b) { Vertex<D, double> r; for (unsigned i = 0; i < D; i++) r[i] = x * a[i] + y * b[i]; return r; }
static double det3(const Vertex<3, double>& a, const Vertex<3, double>& b, const Vertex<3, double>& c) { return dotv(crossv(a, b), c); }
// symbolic frame: MASK selects which entries are symbolic, the others come from a fixed invertible matrix
template<unsigned D> static std::array<Vertex<D, double>, D + 1> frame(unsigned mask, double lo = -4, double hi = 4) {
    static const int F[16] = {2, 0, 0, 0, 0, 1, 0, 0, 0, 0, 3, 0, 0, 0, 0, 1}; std::array<Vertex<D, double>, D + 1> a;
    for (unsigned i = 0; i <= D; i++) for (unsigned j = 0; j < D; j++) a[i][j] = (mask >> (i * D + j)) & 1 ? symReal("m", lo, hi) : i < D ? (double)F[i * 4 + j] : (double)(j + 1);
    return a;
}
// symbolic triangular frame (every shape up to rotation and reflection), axes permuted by perm, plus a symbolic origin
static std::array<Vertex<3, double>, 4> triFrame(int perm, bool origin = true, unsigned off = 7) {
    static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; const int* q = P[perm];
    double p = symReal("p"), r = symReal("r"), u = symReal("u"); ASSUME(p != 0); ASSUME(r != 0); ASSUME(u != 0); std::array<Vertex<3, double>, 4> a;
    a[0][q[0]] = p; a[0][q[1]] = 0; a[0][q[2]] = 0; a[1][q[0]] = off & 1 ? symReal("q") : 1; a[1][q[1]] = r; a[1][q[2]] = 0; a[2][q[0]] = off & 2 ? symReal("s") : -1; a[2][q[1]] = off & 4 ? symReal("t") : 0.5; a[2][q[2]] = u;
    for (int i = 0; i < 3; i++) a[3][i] = origin ? symReal("o") : (double)(i + 1);
    return a;
}
template<unsigned D> static std::vector<Vertex<D, double>> place(const Geo<D>& g, const std::array<Vertex<D, double>, D + 1>& a) {
    std::vector<Vertex<D, double>> r; for (auto& p : g.p) { Vertex<D, double> v = a[D]; for (unsigned i = 0; i < D; i++) for (unsigned j = 0; j < D; j++) v[j] = v[j] + p[i] * a[i][j]; r.push_back(v); } return r;
}
// the 4D simplex; returns nothing: edge (a,b), triangle and tetrahedron numbers are by ascending vertices
template<class M> static void build4(M& m, const std::vector<Vertex<4, double>>& pos) {
    for (I i = 0; i < 5; i++) m.getVertices().push_back(typename M::Vertex(i, pos[i]));
    I e[5][5], f[5][5][5]; for (I a = 0; a < 5; a++) for (I b = a + 1; b < 5; b++) { e[a][b] = m.getEdges().size(); m.getEdges().push_back(typename M::Edge(e[a][b], a, b)); }
    auto& el2 = m.template getElements<2>(); auto& el3 = m.template getElements<3>();
    for (I a = 0; a < 5; a++) for (I b = a + 1; b < 5; b++) for (I c = b + 1; c < 5; c++) { f[a][b][c] = el2.size(); el2.push_back(f[a][b][c]); for (I x : {e[a][b], e[b][c], e[a][c]}) el2.back().getSubelements().addSubelement(x); }
    for (I o = 0; o < 5; o++) { I v[4], n = 0; for (I k = 0; k < 5; k++) if (k != o) v[n++] = k; el3.push_back(o); for (I x : {f[v[0]][v[1]][v[2]], f[v[0]][v[1]][v[3]], f[v[0]][v[2]][v[3]], f[v[1]][v[2]][v[3]]}) el3.back().getSubelements().addSubelement(x); el3.back().setNextBElem((o + 1) % 5, 0); }
    m.getCells().push_back(typename M::Cell(0)); m.getCells()[0].setBoundaryElementIndex(2);
}
#endif
