// An independent reader of the VTK legacy format, and what a written mesh has to look like.
#ifndef VTK_H
#define VTK_H
#include "geo.h"
#include <sstream>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h>
typedef MeshNativeType<3> T3; typedef MeshNativeType<2> T2;
struct Vtk { std::vector<Vertex<3, double>> p; std::vector<std::vector<I>> c; std::vector<int> t; };
static void word(std::istream& s, const char* w) { std::string b; s >> b; ASSERT(b == w, "VTK keyword as the format requires"); }
static Vtk parseVtk(const std::string& txt) {
    Vtk v; std::istringstream s(txt); std::string l; std::getline(s, l); ASSERT(l == "# vtk DataFile Version 2.0", "VTK version line"); std::getline(s, l); ASSERT(l == "title of data", "VTK title line");
    word(s, "ASCII"); word(s, "DATASET"); word(s, "UNSTRUCTURED_GRID"); word(s, "POINTS"); I n = 0, tot = 0, sum = 0; s >> n; word(s, "double"); ASSERT(n < 4000, "number of points"); v.p.resize(n);
    for (auto& p : v.p) s >> p[0] >> p[1] >> p[2];
    word(s, "CELLS"); s >> n >> tot; ASSERT(n < 4000, "number of cells"); v.c.resize(n);
    for (auto& c : v.c) { I k = 0; s >> k; ASSERT(k > 1 && k < 20, "number of points of a cell"); sum += k + 1; for (I i = 0; i < k; i++) { I x = NONE; s >> x; ASSERT(x < v.p.size(), "cells refer to written points"); c.push_back(x); } }
    ASSERT(tot == sum, "size of the CELLS section"); word(s, "CELL_TYPES"); s >> n; ASSERT(n == v.c.size(), "one type per cell"); v.t.resize(n); for (auto& t : v.t) { s >> t; }
    ASSERT(!s.fail(), "complete VTK file"); return v;
}
typedef std::vector<I> Vi; inline Vi srt(Vi a) { std::sort(a.begin(), a.end()); return a; }
template<unsigned D> static bool hasEdge(const Geo<D>& g, I a, I b) { for (auto& e : g.e) if ((e[0] == a && e[1] == b) || (e[0] == b && e[1] == a)) return true; return false; }
template<unsigned D> static bool cycle(const Geo<D>& g, const Vi& v, size_t from, size_t n) { for (size_t k = 0; k < n; k++) if (!hasEdge(g, v[from + k], v[from + (k + 1) % n])) return false; return true; }
static Vi vertsOf(const Geo3& g, I c) { Vi r; for (I f : g.cf[c]) for (I v : g.fv[f]) if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); return srt(r); }
static Vertex<3, double> V3(double x, double y, double z) { Vertex<3, double> v; v[0] = x; v[1] = y; v[2] = z; return v; }
// cell c of g written with the points w: the type's numbering of corners, base face turned towards the rest of the cell
static void checkCell(const Geo3& g, const std::vector<Vertex<3, double>>& pos, I c, int nativeType, int code, const Vi& w) {
    ASSERT(srt(w) == vertsOf(g, c), "a written cell has the vertices of the mesh cell"); size_t nb = nativeType == T3::TETRA || nativeType == T3::WEDGE ? 3 : 4;
    ASSERT(code == (nativeType == T3::TETRA ? 10 : nativeType == T3::HEXAHEDRON ? 12 : nativeType == T3::WEDGE ? 13 : 14), "VTK code of the cell type"); if (w.size() < nb + 1) return;
    ASSERT(cycle(g, w, 0, nb), "the base of a written cell is a cycle of edges"); Vi b(w.begin(), w.begin() + nb); bool isFace = false; for (I f : g.cf[c]) if (srt(g.fv[f]) == srt(b)) isFace = true; ASSERT(isFace, "the base of a written cell is a face");
    if (nativeType == T3::HEXAHEDRON || nativeType == T3::WEDGE) { ASSERT(cycle(g, w, nb, nb), "the top of a written cell is a cycle of edges"); for (size_t k = 0; k < nb; k++) ASSERT(hasEdge(g, w[k], w[k + nb]), "top corners lie above the base corners"); }
    ASSERT(det3(sub(pos[w[1]], pos[w[0]]), sub(pos[w[2]], pos[w[0]]), sub(pos[w[nb]], pos[w[0]])) > 0, "the base of a written cell is turned inwards whatever the side and edge directions");
}
// isomorphism of a mesh read back with the geometry it came from (cells and vertices keep their numbers)
template<class M> static void checkRead(M& m, const Geo3& g, const std::vector<Vertex<3, double>>& pos) {
    ASSERT(m.getVertices().size() == pos.size(), "read vertices"); ASSERT(m.getEdges().size() == g.e.size(), "read edges"); ASSERT(m.getFaces().size() == g.fv.size(), "read faces"); ASSERT(m.getCells().size() == g.cf.size(), "read cells");
    ASSERT(m.getBoundaryCells().size() == 0, "no boundary cells after reading");
    for (I i = 0; i < pos.size(); i++) { auto& v = m.getVertices()[i]; ASSERT(v.getIndex() == i, "index of a read vertex"); for (int k = 0; k < 3; k++) sx_assert_close(v[k], pos[i][k], "coordinates of a read vertex"); }
    for (I i = 0; i < m.getEdges().size(); i++) { auto& e = m.getEdges()[i]; ASSERT(e.getIndex() == i && hasEdge(g, e.getVertexAIndex(), e.getVertexBIndex()), "a read edge is an edge of the mesh"); for (I j = 0; j < i; j++) { auto& f = m.getEdges()[j]; ASSERT(!(f.getVertexAIndex() == e.getVertexAIndex() && f.getVertexBIndex() == e.getVertexBIndex()) && !(f.getVertexAIndex() == e.getVertexBIndex() && f.getVertexBIndex() == e.getVertexAIndex()), "read edges are distinct"); } }
    std::vector<I> orig; // read face -> original face
    for (I i = 0; i < m.getFaces().size(); i++) { auto& f = m.getFaces()[i]; ASSERT(f.getIndex() == i, "index of a read face"); Vi v, es; for (auto s : f.getSubelements()) { ASSERT(s < m.getEdges().size(), "edges of a read face exist"); es.push_back(s); v.push_back(m.getEdges()[s].getVertexAIndex()); v.push_back(m.getEdges()[s].getVertexBIndex()); }
        v = srt(v); for (size_t k = 0; k + 1 < v.size(); k += 2) ASSERT(v[k] == v[k + 1], "the edges of a read face close a cycle"); Vi u = v; u.erase(std::unique(u.begin(), u.end()), u.end()); I o = NONE; for (I k = 0; k < g.fv.size(); k++) if (srt(g.fv[k]) == u) o = k;
        ASSERT(o != NONE && es.size() == g.fv[o == NONE ? 0 : o].size(), "a read face is a face of the mesh"); ASSERT(std::find(orig.begin(), orig.end(), o) == orig.end(), "a shared face is read once"); orig.push_back(o);
        Vi cs, cr; for (I c = 0; c < g.cf.size(); c++) for (I k : g.cf[c]) if (k == o) cs.push_back(c); cr.push_back(f.getCellLeftIndex()); if (f.getCellRightIndex() != NONE && f.getCellRightIndex() != (I)INVALID_INDEX(decltype(f.getCellRightIndex()))) cr.push_back(f.getCellRightIndex()); ASSERT(srt(cs) == srt(cr), "cells beside a read face"); }
    for (I c = 0; c < m.getCells().size(); c++) { auto& cl = m.getCells()[c]; ASSERT(cl.getIndex() == c, "index of a read cell"); Vi fs; auto f0 = cl.getBoundaryElementIndex(), f = f0; size_t n = 0; do { ASSERT(f < m.getFaces().size(), "faces of a read cell exist"); fs.push_back(orig[f]); f = m.getFaces()[f].getNextBElem(c); } while (f != f0 && ++n < 10); ASSERT(srt(fs) == srt(g.cf[c]), "walking round a read cell visits each of its faces once"); }
}
template<class M> static void checkRead(M& m, const Geo2& g, const std::vector<Vertex<2, double>>& pos) {
    ASSERT(m.getVertices().size() == pos.size(), "read vertices"); ASSERT(m.getEdges().size() == g.e.size(), "read edges"); ASSERT(m.getCells().size() == g.cf.size(), "read cells"); ASSERT(m.getBoundaryCells().size() == 0, "no boundary cells after reading");
    for (I i = 0; i < pos.size(); i++) { auto& v = m.getVertices()[i]; ASSERT(v.getIndex() == i, "index of a read vertex"); for (int k = 0; k < 2; k++) sx_assert_close(v[k], pos[i][k], "coordinates of a read vertex"); }
    std::vector<I> orig; for (I i = 0; i < m.getEdges().size(); i++) { auto& e = m.getEdges()[i]; I o = NONE; for (I k = 0; k < g.e.size(); k++) if (srt({g.e[k][0], g.e[k][1]}) == srt({(I)e.getVertexAIndex(), (I)e.getVertexBIndex()})) o = k;
        ASSERT(e.getIndex() == i && o != NONE && std::find(orig.begin(), orig.end(), o) == orig.end(), "every edge of the mesh is read once"); orig.push_back(o);
        Vi cs, cr; for (I c = 0; c < g.cf.size(); c++) for (I k : g.cf[c]) if (k == o) cs.push_back(c); cr.push_back(e.getCellLeftIndex()); if (e.getCellRightIndex() != NONE && e.getCellRightIndex() != (I)INVALID_INDEX(decltype(e.getCellRightIndex()))) cr.push_back(e.getCellRightIndex()); ASSERT(srt(cs) == srt(cr), "cells beside a read edge"); }
    for (I c = 0; c < m.getCells().size(); c++) { auto& cl = m.getCells()[c]; ASSERT(cl.getIndex() == c, "index of a read cell"); Vi fs; auto f0 = cl.getBoundaryElementIndex(), f = f0; size_t n = 0; do { ASSERT(f < m.getEdges().size(), "edges of a read cell exist"); fs.push_back(orig[f]); f = m.getEdges()[f].getNextBElem(c); } while (f != f0 && ++n < 10); ASSERT(srt(fs) == srt(g.cf[c]), "walking round a read cell visits each of its edges once"); }
}
// cells over few of very many vertices, whose numbers are easily confused (12 34 and 1 234, 3 44 and 2 300, ...); no face has more than two cells
#ifndef MANY
#define MANY 1300
#endif
inline std::vector<Vi> confusableTets() { return {{1, 234, 12, 34}, {1, 123, 11, 23}, {2, 256, 22, 56}, {1, 300, 2, 44}, {1, 203, 2, 103}, {2, 3, 256, 258}, {1, 1005, 2, 5}, {1, 1010, 2, 10}, {1, 234, 10, 144}, {34, 10, 44, 1010}, {300, 234, 3, 5}, {2, 1, 12, 44}, {203, 3, 144, 11}, {123, 11, 203, 3}, {2, 11, 3, 23}, {123, 1005, 22, 234}, {300, 44, 256, 10}, {56, 12, 1010, 2}, {23, 144, 3, 44}, {10, 258, 3, 11}, {234, 44, 258, 1}, {234, 10, 23, 44}, {144, 3, 5, 1010}, {256, 3, 22, 1005}, {1, 256, 144, 2}, {1010, 2, 11, 123}, {1005, 11, 258, 203}, {1010, 103, 11, 144}, {23, 1010, 5, 44}, {12, 234, 56, 3}, {144, 103, 56, 22}, {300, 23, 11, 203}, {3, 123, 11, 5}, {11, 2, 1010, 44}, {11, 144, 3, 103}, {256, 300, 103, 123}, {1005, 44, 56, 22}, {12, 203, 123, 1}, {22, 256, 10, 1005}, {10, 34, 2, 44}, {56, 10, 234, 22}, {44, 300, 123, 34}, {1, 144, 123, 1005}, {234, 22, 144, 12}, {203, 144, 56, 5}, {103, 3, 300, 10}
#if MANY > 65640
    , {65600, 65601, 65602, 65603}, {64, 65, 66, 67}, {65600, 67, 65602, 65637}
#endif
    }; }
inline std::vector<Vi> confusablePolygons() { return {{1, 234, 300, 34, 12}, {1, 123, 5, 11, 23}, {2, 256, 56, 22}, {1, 300, 44, 2}, {1, 203, 103, 2}, {10, 144, 1, 234}, {256, 234, 144}, {256, 5, 300}, {10, 5, 22, 144}, {5, 10, 103, 2}, {3, 22, 56}, {44, 3, 234}, {2, 34, 1, 22}, {258, 56, 234, 22}, {23, 1005, 144, 56}, {2, 203, 5}, {258, 10, 123, 56, 300}, {23, 234, 258, 3}, {1, 23, 44, 1005, 103}, {44, 3, 2, 123, 144}, {300, 44, 144, 5, 256}, {256, 3, 123}, {144, 1010, 11, 22, 300}, {10, 12, 300, 234}, {1, 22, 1010, 5, 300}, {234, 44, 11, 22}, {3, 103, 258, 22}, {56, 44, 34}, {5, 1005, 34}, {5, 1010, 56}, {1010, 144, 203, 103}, {23, 2, 258, 56}, {12, 10, 11}, {1010, 10, 34, 12}, {123, 300, 11}, {103, 256, 12, 44}, {11, 234, 203}, {3, 5, 1}, {103, 123, 258, 3}, {5, 1, 3, 123, 11}
#if MANY > 65640
    , {65600, 65601, 65602, 65603}, {64, 65, 66, 67}, {65600, 67, 65602, 65637}
#endif
    }; }
template<unsigned D> static std::vector<Vertex<D, double>> manyPos() { std::vector<Vertex<D, double>> r(MANY); for (size_t i = 0; i < MANY; i++) for (unsigned k = 0; k < D; k++) r[i][k] = i % (MANY / 5) == 44 ? symReal("x") : (double)((i * (3 + 2 * k)) % 101); return r; }
template<unsigned D> struct TypesOf { typedef MeshDataContainer<typename MeshNativeType<D>::ElementType, D> type; };
#endif
