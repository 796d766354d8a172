// Data containers bound to mesh elements: allocation, addressing, copies.
#include "common.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <type_traits>
typedef uint64_t I;
#ifndef MAXN
#define MAXN 3
#endif
typedef MeshElements<3, I, double> Mesh;
static unsigned nv, ne, nf, nc;
static void build(Mesh& m) {
    nv = (unsigned)sx_pick(sx_i64("nv", 0, MAXN)); ne = (unsigned)sx_pick(sx_i64("ne", 0, 2)); nf = (unsigned)sx_pick(sx_i64("nf", 0, MAXN)); nc = (unsigned)sx_pick(sx_i64("nc", 0, MAXN));
    for (I i = 0; i < nv; i++) m.getVertices().push_back(Mesh::Vertex(i)); for (I i = 0; i < ne; i++) m.getEdges().push_back(Mesh::Edge(i));
    for (I i = 0; i < nf; i++) m.getFaces().push_back(Mesh::Face(i)); for (I i = 0; i < nc; i++) m.getCells().push_back(Mesh::Cell(i));
}
template<class V, class T> static void all(const V& v, unsigned n, T x, const char* w) { ASSERT(v.size() == n, "as many values as mesh elements"); for (unsigned i = 0; i < n; i++) ASSERT(v[i] == x, w); }
template<class C> static void fillAndCheck(C& c, Mesh& m) {
    const C& k = c;
    for (auto& e : m.getCells()) c[e] = (int)sx_u32("c"); for (auto& e : m.getFaces()) c.at(e) = (int)sx_u32("f");
    for (I i = 0; i < nc; i++) { ElementIndex<3, I> ei(i); ASSERT(&c[m.getCells()[i]] == &c.template getDataByDim<3>()[i] && &c.at(m.getCells()[i]) == &c[m.getCells()[i]] && &c[ei] == &c[m.getCells()[i]] && &k[ei] == &c[ei] && &k[m.getCells()[i]] == &c[ei] && &k.at(m.getCells()[i]) == &c[ei] && &k.template getDataByDim<3>()[i] == &c[ei], "every access to the value of a cell is the same value"); }
    for (I i = 0; i < nf; i++) { ElementIndex<2, I> ei(i); ASSERT(&c[m.getFaces()[i]] == &c.template getDataByDim<2>()[i] && &c.at(m.getFaces()[i]) == &c[m.getFaces()[i]] && &c[ei] == &c[m.getFaces()[i]] && &k[ei] == &c[ei] && &k[m.getFaces()[i]] == &c[ei] && &k.at(m.getFaces()[i]) == &c[ei], "every access to the value of a face is the same value"); }
    typename Mesh::Cell out((I)sx_i64("beyond", MAXN, 1000)); bool thrown = false; try { c.at(out) = 1; } catch (const std::out_of_range&) { thrown = true; } ASSERT(thrown, "an element outside the container is refused");
    thrown = false; try { (void)k.at(out); } catch (const std::out_of_range&) { thrown = true; } ASSERT(thrown, "an element outside the container is refused");
}
extern "C" void sx_main() {
    Mesh m; build(m); int x = (int)sx_u32("x"); double y = (double)sx_i64("y", -9, 9);
    switch (sx_pick(sx_i64("case", 0, 5))) {
        case 0: { // one type
            MeshDataContainer<int, 3, 2> c(m), d(m, x), e; all(c.getDataByDim<3>(), nc, 0, "values start at zero"); all(c.getDataByDim<2>(), nf, 0, "values start at zero");
            all(d.getDataByDim<3>(), nc, x, "values start at the initial value"); all(d.getDataByDim<2>(), nf, x, "values start at the initial value");
            ASSERT((const void*)&c.getDataByPos<0>() == &c.getDataByDim<3>() && (const void*)&c.getDataByPos<1>() == &c.getDataByDim<2>() && (const void*)&c[std::integer_sequence<unsigned, 1>()] == &c.getDataByDim<2>(), "arrays by position and by dimension agree");
            fillAndCheck(c, m); e = c; MeshDataContainer<int, 3, 2> f(c), g; g = std::move(f);
            for (unsigned i = 0; i < nc; i++) { int old = c.getDataByPos<0>()[i]; ASSERT(e.getDataByPos<0>()[i] == old && g.getDataByPos<0>()[i] == old, "copies hold the same values"); e.getDataByPos<0>()[i] = x; ASSERT(c.getDataByPos<0>()[i] == old, "copies are independent"); }
            ASSERT(e.getDataByPos<1>().size() == nf && g.getDataByPos<1>().size() == nf, "copies hold every array");
            static_assert(MeshDataContainer<int, 3, 2>::size() == 2 && MeshDataContainer<int, 3, 2>::dimensionAt<0>() == 3 && MeshDataContainer<int, 3, 2>::dimensionAt<1>() == 2 && MeshDataContainer<int, 3, 2>::dimensionIndex<2>() == 1 && MeshDataContainer<int, 3, 2>::DataContainerType<1>::getMappedDimension() == 2, "dimensions");
            break; }
        case 1: { // all dimensions in ascending order, and with deduction arguments
            MeshDataContainer<int, 0, 1, 2, 3> c(m, x); all(c.getDataByDim<0>(), nv, x, "values start at the initial value"); all(c.getDataByDim<1>(), ne, x, "values start at the initial value"); all(c.getDataByDim<2>(), nf, x, "values start at the initial value"); all(c.getDataByDim<3>(), nc, x, "values start at the initial value");
            for (I i = 0; i < nv; i++) ASSERT(&c[m.getVertices()[i]] == &c.getDataByDim<0>()[i], "value of a vertex"); for (I i = 0; i < ne; i++) ASSERT(&c.at(m.getEdges()[i]) == &c.getDataByDim<1>()[i], "value of an edge");
            MakeMeshDataContainer_t<double, std::integer_sequence<unsigned, 2, 0>> z(m, std::integer_sequence<unsigned, 2, 0>(), double()); all(z.getDataByDim<0>(), nv, 0.0, "values start at zero"); all(z.getDataByPos<0>(), nf, 0.0, "values start at zero");
            MeshDataContainer<double, 3> w(m, y, std::integer_sequence<unsigned, 3>(), double()); all(w.getDataByDim<3>(), nc, y, "values start at the initial value"); break; }
        case 2: { // allocated like another container
            MeshDataContainer<char, 3, 2, 0> a(m); MeshDataContainer<int, 2, 3> b; b.allocateData(a, x); all(b.getDataByDim<3>(), nc, x, "values start at the initial value"); all(b.getDataByDim<2>(), nf, x, "values start at the initial value");
            MeshDataContainer<double, 0> d; d.allocateData(a); all(d.getDataByDim<0>(), nv, 0.0, "values start at zero"); d.allocateData(m); ASSERT(d.getDataByDim<0>().size() == nv, "as many values as mesh elements"); break; }
        case 3: { // own type per dimension
            typedef MeshDataContainer<std::tuple<int, double, char>, 3, 2, 0> C; C c(m), d(m, x, y, 'q'), e; all(c.getDataByDim<3>(), nc, 0, "values start at zero"); all(c.getDataByDim<2>(), nf, 0.0, "values start at zero"); all(c.getDataByDim<0>(), nv, 0, "values start at zero");
            all(d.getDataByDim<3>(), nc, x, "values start at the initial value"); all(d.getDataByDim<2>(), nf, y, "values start at the initial value"); all(d.getDataByDim<0>(), nv, 'q', "values start at the initial value");
            fillAndCheck(c, m); const C& k = c; ASSERT((const void*)&c[std::integer_sequence<unsigned, 1>()] == &c.getDataByDim<2>() && (const void*)&k[std::integer_sequence<unsigned, 2>()] == &c.getDataByDim<0>() && (const void*)&c.getDataByPos<0>() == &c.getDataByDim<3>(), "arrays by position and by dimension agree");
            e = d; C f(d), g; g = std::move(f); all(e.getDataByDim<3>(), nc, x, "copies hold the same values"); all(g.getDataByDim<2>(), nf, y, "copies hold the same values"); if (nc) { e.getDataByDim<3>()[0] = x + 1; ASSERT(d.getDataByDim<3>()[0] == x, "copies are independent"); }
            break; }
        case 4: { typedef MeshDataContainer<std::tuple<int, double>, 2, 3> C; C a(m, x, y), b, c; b.allocateData(a); all(b.getDataByDim<2>(), nf, 0, "values start at zero"); all(b.getDataByDim<3>(), nc, 0.0, "values start at zero"); c.allocateData(a, x, y); all(c.getDataByDim<2>(), nf, x, "values start at the initial value"); all(c.getDataByDim<3>(), nc, y, "values start at the initial value"); C d; d.allocateData(m, x, y); all(d.getDataByDim<3>(), nc, y, "values start at the initial value"); C e; e.allocateData(m); all(e.getDataByDim<2>(), nf, 0, "values start at zero"); break; }
        case 5: { MeshElements<2, I, double> q; for (I i = 0; i < nc; i++) q.getCells().push_back(i); for (I i = 0; i < nf; i++) q.getEdges().push_back(i); MeshDataContainer<int, 2, 1> c(q, x); all(c.getDataByDim<2>(), nc, x, "values start at the initial value"); all(c.getDataByDim<1>(), nf, x, "values start at the initial value"); for (I i = 0; i < nc; i++) ASSERT(&c[q.getCells()[i]] == &c.getDataByPos<0>()[i], "value of a cell"); for (I i = 0; i < nf; i++) ASSERT(&c[q.getEdges()[i]] == &c.getDataByPos<1>()[i], "value of an edge"); break; }
    }
    switch (choose(3)) { // a container allocated again for another mesh
        case 0: { Mesh o; for (I i = 0; i < 2; i++) { o.getCells().push_back(Mesh::Cell(i)); o.getFaces().push_back(Mesh::Face(i)); o.getVertices().push_back(Mesh::Vertex(i)); } MeshDataContainer<int, 3, 2, 0> c(o, 5); c.allocateData(m); ASSERT(c.getDataByDim<3>().size() == nc && c.getDataByDim<2>().size() == nf && c.getDataByDim<0>().size() == nv, "as many values as mesh elements"); for (I i = 2; i < nc; i++) ASSERT(c.getDataByDim<3>()[i] == 0, "values start at zero"); for (I i = 2; i < nf; i++) ASSERT(c.getDataByDim<2>()[i] == 0, "values start at zero");
            MeshDataContainer<int, 3, 2, 0> e; e = c; c.allocateData(o, 9); ASSERT(c.getDataByDim<3>().size() == 2 && c.getDataByDim<2>().size() == 2 && c.getDataByDim<0>().size() == 2, "as many values as mesh elements"); c.allocateData(e, 8); ASSERT(c.getDataByDim<3>().size() == nc && c.getDataByDim<2>().size() == nf && c.getDataByDim<0>().size() == nv, "as many values as mesh elements"); c = e; ASSERT(c.getDataByDim<3>().size() == nc && c.getDataByDim<2>().size() == nf && c.getDataByDim<0>().size() == nv, "copies hold every array"); break; }
        case 1: { Mesh o; for (I i = 0; i < 2; i++) { o.getCells().push_back(Mesh::Cell(i)); o.getFaces().push_back(Mesh::Face(i)); o.getEdges().push_back(Mesh::Edge(i)); } typedef MeshDataContainer<std::tuple<int, double, char, long>, 3, 2, 1, 2> C; C c(o, 1, 2.0, 'c', 4L), d; c.allocateData(m); d.allocateData(m, x, y, 'q', 7L); ASSERT(c.getDataByPos<0>().size() == nc && c.getDataByPos<1>().size() == nf && c.getDataByPos<2>().size() == ne && c.getDataByPos<3>().size() == nf, "as many values as mesh elements"); all(d.getDataByPos<3>(), nf, 7, "values start at the initial value"); all(d.getDataByPos<1>(), nf, y, "values start at the initial value"); all(d.getDataByPos<2>(), ne, 'q', "values start at the initial value");
            c = d; all(c.getDataByPos<0>(), nc, x, "copies hold the same values"); all(c.getDataByPos<3>(), nf, 7, "copies hold the same values"); c.allocateData(o); ASSERT(c.getDataByPos<0>().size() == 2 && c.getDataByPos<1>().size() == 2 && c.getDataByPos<2>().size() == 2 && c.getDataByPos<3>().size() == 2, "as many values as mesh elements"); break; }
        case 2: { Mesh o; for (I i = 0; i < 300; i++) { o.getCells().push_back(Mesh::Cell(i)); if (i % 2) o.getFaces().push_back(Mesh::Face(i / 2)); } MeshDataContainer<int, 3, 2> c(o, 5), d(m, 6); d.allocateData(c); ASSERT(d.getDataByDim<3>().size() == 300 && d.getDataByDim<2>().size() == 150, "as many values as mesh elements"); for (auto& e : o.getCells()) c[e] = (int)e.getIndex() + x % 2; for (auto& e : o.getFaces()) c.at(e) = -(int)e.getIndex(); for (I i = 0; i < 300; i++) { ASSERT(c.getDataByDim<3>()[i] == (int)i + x % 2 && c[o.getCells()[i]] == (int)i + x % 2, "every access to the value of a cell is the same value"); if (i < 150) ASSERT(c.getDataByDim<2>()[i] == -(int)i, "every access to the value of a face is the same value"); } break; }
    }
    sx_reach("end");
}
