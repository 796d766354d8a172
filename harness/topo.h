// Small meshes with symbolic topology, and an independent description of who touches whom.
#ifndef TOPO_H
#define TOPO_H
#include "common.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
typedef uint64_t I;
static const I NONE = ~(I)0;
// concrete description with possibly symbolic entries; cells are given per face as (left, right)
struct Topo {
    unsigned dim = 3, nv = 0, ne = 0, nf = 0, nc = 0;
    I edge[12][2]; unsigned fn[8] = {}; I face[8][6]; I fl[12], fr[12]; I start[4];
    // does cell c have boundary element f
    bool cellFace(unsigned c, unsigned f) const { return (fl[f] == c) | (fr[f] == c); }
    bool faceEdge(unsigned f, unsigned e) const { bool r = false; for (unsigned k = 0; k < fn[f]; k++) r = r | (face[f][k] == e); return r; }
    bool edgeVert(unsigned e, unsigned v) const { return (edge[e][0] == v) | (edge[e][1] == v); }
    unsigned count(unsigned d) const { return d == 0 ? nv : d == 1 ? ne : d == dim ? nc : nf; }
    // element i of dimension h has element j of dimension l (l < h)
    bool has(unsigned h, unsigned i, unsigned l, unsigned j) const {
        if (h == l) return i == j;
        if (h == 1) return edgeVert(i, j);
        unsigned s = h - 1; bool r = false;
        for (unsigned k = 0; k < count(s); k++) { bool sub = h == dim ? cellFace(i, k) : faceEdge(i, k); r = r | (sub & has(s, k, l, j)); }
        return r;
    }
    bool touch(unsigned a, unsigned i, unsigned b, unsigned j) const { return a >= b ? has(a, i, b, j) : has(b, j, a, i); }
};
template<class M> static void buildMesh(M& m, const Topo& t) {
    for (I i = 0; i < t.nv; i++) m.getVertices().push_back(typename M::Vertex(i));
    for (I i = 0; i < t.ne; i++) m.getEdges().push_back(typename M::Edge(i, t.edge[i][0], t.edge[i][1]));
}
inline void addFaces(UnstructuredMesh<3, I, double>& m, const Topo& t) { for (I f = 0; f < t.nf; f++) { m.getFaces().push_back(f); for (unsigned k = 0; k < t.fn[f]; k++) m.getFaces()[f].getSubelements().addSubelement(t.face[f][k]); } }
template<unsigned R> inline void addFaces(UnstructuredMesh<3, I, double, R>& m, const Topo& t) { for (I f = 0; f < t.nf; f++) { m.getFaces().push_back(typename UnstructuredMesh<3, I, double, R>::Face(f)); for (unsigned k = 0; k < t.fn[f]; k++) m.getFaces()[f].getSubelements().addSubelement(t.face[f][k]); } }
inline void addFaces(UnstructuredMesh<2, I, double>&, const Topo&) {}
// needs concrete fl/fr
template<class M> static void addCells(M& m, const Topo& t) {
    auto& fs = m.getFaces();
    for (unsigned f = 0; f < fs.size(); f++) { fs[f].setCellLeftIndex(t.fl[f]); fs[f].setCellRightIndex(t.fr[f]); }
    for (I c = 0; c < t.nc; c++) {
        m.getCells().push_back(typename M::Cell(c)); unsigned list[12], n = 0, s = 0;
        for (unsigned f = 0; f < fs.size(); f++) if (t.fl[f] == c || t.fr[f] == c) list[n++] = f;
        if (!n) continue;
        if (t.start[c] < n) s = (unsigned)t.start[c];
        for (unsigned k = 0; k < n; k++) fs[list[k]].setNextBElem(list[(k + 1) % n], c);
        m.getCells()[c].setBoundaryElementIndex(list[s]);
    }
}
// two tetrahedra glued along a face (5 vertices, 9 edges, 7 faces), faces' cells given
inline Topo twoTets() {
    Topo t; t.nv = 5; t.ne = 9; t.nf = 7; t.nc = 2;
    static const I E[9][2] = {{0,1},{0,2},{1,2},{0,3},{1,3},{2,3},{0,4},{1,4},{2,4}};
    static const I F[7][3] = {{0,1,2},{0,3,4},{1,3,5},{2,4,5},{0,6,7},{1,6,8},{2,7,8}};
    for (int i = 0; i < 9; i++) for (int k = 0; k < 2; k++) t.edge[i][k] = E[i][k];
    for (int i = 0; i < 7; i++) { t.fn[i] = 3; for (int k = 0; k < 3; k++) t.face[i][k] = F[i][k]; t.fl[i] = i == 0 ? 0 : i < 4 ? 0 : 1; t.fr[i] = i == 0 ? 1 : NONE; }
    for (auto& s : t.start) s = 0; return t;
}
// triangle fan in 2D: nc cells around edge chain; 2 triangles sharing an edge
inline Topo twoTris() {
    Topo t; t.dim = 2; t.nv = 4; t.ne = 5; t.nf = 0; t.nc = 2;
    static const I E[5][2] = {{0,1},{1,2},{2,0},{1,3},{3,2}};
    for (int i = 0; i < 5; i++) { for (int k = 0; k < 2; k++) t.edge[i][k] = E[i][k]; t.fl[i] = i < 3 ? 0 : 1; t.fr[i] = i == 1 ? 1 : NONE; }
    for (auto& s : t.start) s = 0; return t;
}
#endif
