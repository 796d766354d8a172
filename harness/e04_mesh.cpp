// Mesh element storage: accessors, defaults, clear, boundary cells.
#include "common.h"
#include <GTMesh/UnstructuredMesh/MeshElements/MeshElements.h>
#include <type_traits>
#ifndef FACES
#define FACES 3
#endif
typedef uint64_t I;
static const I INV = ~(I)0, TOP = (I)1 << 63;
// which cells does a face have, symbolically chosen: 0 none, 1 left, 2 right, 3 both
template<class M> static void boundary(M& mesh) {
    bool hasL[FACES], hasR[FACES]; I L[FACES], R[FACES]; double c[FACES];
    for (int f = 0; f < FACES; f++) {
        mesh.getFaces().push_back(typename M::Face((I)f));
        L[f] = sx_u64("left"); R[f] = sx_u64("right");
        mesh.getFaces()[f].setCellLeftIndex(L[f]); mesh.getFaces()[f].setCellRightIndex(R[f]);
        c[f] = symReal("center"); for (unsigned d = 0; d < M::meshDimension(); d++) mesh.getFaces()[f].getCenter()[d] = c[f] + d;
        hasL[f] = L[f] != INV; hasR[f] = R[f] != INV;
    }
    mesh.setupBoundaryCells();
    I n = 0;
    for (int f = 0; f < FACES; f++) {
        I l = mesh.getFaces()[f].getCellLeftIndex(), r = mesh.getFaces()[f].getCellRightIndex();
        if (hasL[f]) ASSERT(l == L[f], "a set cell is kept"); else { ASSERT(l == (n | TOP), "boundary cells are numbered face by face"); n++; }
        if (hasR[f]) ASSERT(r == R[f], "a set cell is kept"); else { ASSERT(r == (n | TOP), "boundary cells are numbered face by face"); n++; }
        ASSERT(mesh.getFaces()[f].cellsOK(), "every face has both cells afterwards");
        I sides[2] = {l, r}; bool had[2] = {hasL[f], hasR[f]};
        for (int k = 0; k < 2; k++) if (!had[k]) {
            I p = extractBoundaryIndex(sides[k]); ASSERT(isBoundaryIndex(sides[k]) && p < mesh.getBoundaryCells().size(), "the boundary cell exists");
            ASSERT(mesh.getBoundaryCells()[p].getIndex() == sides[k], "the boundary cell knows its index");
            ASSERT(mesh.getBoundaryCells()[p].getBoundaryElementIndex() == (I)f, "the boundary cell refers to its face");
        }
    }
    ASSERT(mesh.getBoundaryCells().size() == n, "one boundary cell per missing cell");
    mesh.setupBoundaryCellsCenters();
    for (auto& b : mesh.getBoundaryCells()) { auto f = b.getBoundaryElementIndex(); for (unsigned d = 0; d < M::meshDimension(); d++) ASSERT(b.getCenter()[d] == c[f] + d, "a boundary cell is centred on its face"); }
    mesh.setupBoundaryCells(); ASSERT(mesh.getBoundaryCells().size() == n, "a second setup adds nothing");
    if (n) sx_reach("boundary");
    mesh.clear();
    ASSERT(mesh.getFaces().empty() && mesh.getBoundaryCells().empty() && mesh.getCells().empty() && mesh.getVertices().empty() && mesh.getEdges().empty(), "a cleared mesh has no elements");
}
template<class M, class Real> static void store() {
    M mesh; const M& cm = mesh; constexpr unsigned D = M::meshDimension();
    Real x = (Real)sx_i64("x", -100, 100), y = (Real)sx_i64("y", -100, 100);
    mesh.getVertices().push_back({(I)0, {x, y}}); mesh.getVertices().push_back({(I)1, {y}});
    I a = sx_u64("a"), b = sx_u64("b"), i = sx_u64("i");
    mesh.getEdges().push_back(typename M::Edge(i, a, b)); mesh.getEdges().push_back(typename M::Edge());
    ASSERT(mesh.getEdges()[0].getIndex() == i && mesh.getEdges()[0].getVertexAIndex() == a && mesh.getEdges()[0].getVertexBIndex() == b, "an edge stores its index and vertices");
    ASSERT(mesh.getEdges()[1].getIndex() == INV && mesh.getEdges()[1].getVertexAIndex() == INV && mesh.getEdges()[1].getVertexBIndex() == INV, "a default edge is invalid");
    mesh.getEdges()[1].setVertexAIndex(b); mesh.getEdges()[1].setVertexBIndex(a); mesh.getEdges()[1].setIndex(i); ASSERT(mesh.getEdges()[1].getVertexAIndex() == b && mesh.getEdges()[1].getVertexBIndex() == a && mesh.getEdges()[1].getIndex() == i, "edge setters");
    ASSERT(mesh.getVertices()[0][0] == x && mesh.getVertices()[0][1] == y && mesh.getVertices()[1][0] == y && mesh.getVertices()[1][1] == 0, "a vertex stores its coordinates");
    for (unsigned d = 2; d < D; d++) ASSERT(mesh.getVertices()[0][d] == 0, "missing coordinates are zero");
    mesh.getVertices()[1] = {y, x}; ASSERT(mesh.getVertices()[1][0] == y && mesh.getVertices()[1][1] == x && mesh.getVertices()[1].getIndex() == 1, "assigning coordinates keeps the index");
    mesh.getFaces().push_back(typename M::Face(i)); mesh.getFaces().back().setCellIndex(a); mesh.getFaces().back().getFlag() = 5;
    ASSERT(mesh.getFaces().back().getIndex() == i && mesh.getFaces().back().getFlag() == 5, "a face stores index and flag");
    if (D == 3) ASSERT(mesh.getFaces().back().getCenter()[D - 1] == 0, "a new element is centred at the origin");
    typename M::Cell cell(i); cell.setBoundaryElementIndex(b); Vertex<D, Real> v; for (unsigned d = 0; d < D; d++) v[d] = x + (Real)d; cell.setCenter(v); ASSERT(cell.getFlag() == 0, "flags start at zero");
    mesh.getCells().push_back(cell); ASSERT(cm.getCells()[0].getIndex() == i && cm.getCells()[0].getBoundaryElementIndex() == b && cm.getCells()[0].getCenter() == v, "a cell stores index, boundary element and center");
    ElementIndex<0, I> e1((I)1); ASSERT(&mesh.getElement(e1) == &mesh.getVertices()[1] && &cm.getElement(e1) == &cm.getVertices()[1], "element by index"); ElementIndex<D, I> e0((I)0); ASSERT(&mesh.getElement(e0) == &mesh.getCells()[0] && &cm.getElement(e0) == &cm.getCells()[0], "element by index");
    ASSERT((const void*)&mesh.template getElements<0>() == &mesh.getVertices() && (const void*)&mesh.template getElements<1>() == &mesh.getEdges() && (const void*)&mesh.template getElements<D - 1>() == &mesh.getFaces() && (const void*)&mesh.template getElements<D>() == &mesh.getCells(), "elements by dimension");
    ASSERT((const void*)&cm.template getElements<0>() == &cm.getVertices() && (const void*)&cm.template getElements<1>() == &cm.getEdges() && (const void*)&cm.template getElements<D - 1>() == &cm.getFaces() && (const void*)&cm.template getElements<D>() == &cm.getCells(), "elements by dimension");
    M copy(mesh); mesh.clear(); ASSERT(mesh.getVertices().empty() && mesh.getEdges().empty() && mesh.getFaces().empty() && mesh.getCells().empty(), "a cleared mesh has no elements");
    ASSERT(copy.getVertices().size() == 2 && copy.getEdges().size() == (D == 2 ? 3 : 2) && copy.getFaces().size() == (D == 2 ? 3 : 1) && copy.getCells().size() == 1 && copy.getEdges()[0].getVertexBIndex() == b && copy.getVertices()[1][1] == x, "a copied mesh is independent");
    M assigned; assigned = copy; ASSERT(assigned.getVertices().size() == 2 && assigned.getCells()[0].getBoundaryElementIndex() == b, "assignment copies the mesh");
}
extern "C" void sx_main() {
    switch (sx_pick(sx_i64("case", 0, 7))) {
        case 0: { MeshElements<3, I, double> m; boundary(m); break; }
        case 1: { MeshElements<2, I, double> m; boundary(m); break; }
        case 2: { MeshElements<3, I, double, 6> m; boundary(m); break; }
        case 3: { MeshElements<4, I, double> m; boundary(m); break; }
        case 4: store<MeshElements<3, I, double>, double>(); break;
        case 5: store<MeshElements<2, I, double>, double>(); break;
        case 6: store<MeshElements<3, I, float, 4>, float>(); break;
        case 7: store<MeshElements<4, I, double, 2, 3>, double>();
            static_assert(MeshElements<4, I, double, 2, 3>::reserve<3>() == 2 && MeshElements<4, I, double, 2, 3>::reserve<2>() == 3 && MeshElements<3, I, float, 4>::reserve<2>() == 4 && MeshElements<3, I, float, 4>::reserve<1>() == 0 && MeshElements<3, I, float>::reserve<2>() == 0, "reserve per dimension"); break;
    }
    sx_reach("end");
}
