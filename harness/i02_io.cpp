#include "vtk.h"
#include <fstream>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#define PERIOD(i, k) (((i) + (k)) % 3 == 0)
typedef UnstructuredMesh<3, uint64_t, double> M3; typedef UnstructuredMesh<2, uint64_t, double> M2;
template<class M, unsigned D> static void mk(M& m, const Geo<D>& g, const std::vector<Vertex<D, double>>& pos, int v) {
    build(m, g, pos, [v](I f) { return v == 1 || (v == 2 && PERIOD(f, 0)) || (v == 3 && f % 2); }, [v](I e) { return v == 1 || (v == 2 && e % 2) || (v == 3 && PERIOD(e, 1)); }, [v](I f) { return v == 3 ? f : (I)v; });
}
template<class S> static Geo3 shape3(S s) { return s == 0 ? geoTrapez() : s == 1 ? geoPrismPyr() : geoTets(); }
static std::vector<int> typesOf(int shape) { return shape == 0 ? std::vector<int>{T3::HEXAHEDRON} : shape == 1 ? std::vector<int>{T3::WEDGE, T3::PYRAMID} : std::vector<int>{T3::TETRA, T3::TETRA}; }
template<unsigned D> static std::vector<Vertex<D, double>> freePos(size_t n) { std::vector<Vertex<D, double>> r; for (size_t i = 0; i < n; i++) { Vertex<D, double> p; for (unsigned k = 0; k < D; k++) p[k] = symReal("x"); r.push_back(p); } return r; }
static Vi rotTo(Vi a) { std::rotate(a.begin(), std::min_element(a.begin(), a.end()), a.end()); if (a.size() > 2 && a[1] > a.back()) std::reverse(a.begin() + 1, a.end()); return a; }
#if CASE == 0 || CASE == 8
static void parseFpma(const std::string& txt, const Geo3& g, const std::vector<Vertex<3, double>>& pos) {
    std::istringstream s(txt); I n = NONE; s >> n; ASSERT(n == pos.size(), "FPMA number of vertices"); for (auto& p : pos) for (int k = 0; k < 3; k++) { double x = 0; s >> x; sx_assert_close(x, p[k], "FPMA coordinates"); }
    n = NONE; s >> n; ASSERT(n == g.fv.size(), "FPMA number of faces"); for (auto& f : g.fv) { n = NONE; s >> n; ASSERT(n == f.size(), "FPMA number of vertices of a face"); Vi v; for (size_t k = 0; k < f.size(); k++) { I x = NONE; s >> x; v.push_back(x); } ASSERT(rotTo(v) == rotTo(f), "FPMA face is the cycle of its vertices"); }
    n = NONE; s >> n; ASSERT(n == g.cf.size(), "FPMA number of cells"); for (auto& c : g.cf) { n = NONE; s >> n; ASSERT(n == c.size(), "FPMA number of faces of a cell"); Vi v; for (size_t k = 0; k < c.size(); k++) { I x = NONE; s >> x; v.push_back(x); } ASSERT(srt(v) == srt(c), "FPMA faces of a cell"); }
    ASSERT(!s.fail(), "complete FPMA file");
}
#endif
#if CASE == 2
struct Data { double p; int k; Vector<3, double> v; }; MAKE_ATTRIBUTE_TRAIT(Data, p, k, v);
struct More { double q; double hidden; std::array<double, 9> t; }; MAKE_NAMED_ATTRIBUTE_TRAIT(More, "quantity", q, "tens", t);
struct Set { double a; double getA() const { return a; } void setA(const double& x) { a = x; } }; MAKE_CUSTOM_TRAIT(Set, "acc", std::make_pair(&Set::getA, &Set::setA));
struct Plain { double z; };
struct Both { double a, b; }; MAKE_ATTRIBUTE_TRAIT(Both, a); MAKE_ATTRIBUTE_TRAIT_IO(Both, b);
#endif
#if CASE == 6
struct Wide { double a; Vector<3, double> v; int k; std::array<double, 9> t; double b; Vector<3, double> w; float c; }; MAKE_ATTRIBUTE_TRAIT(Wide, a, v, k, t, b, w, c);
#endif
#if CASE == 10
struct Part { double p; Vector<3, double> v; double q; double p2; std::array<double, 9> t; int k; }; MAKE_ATTRIBUTE_TRAIT(Part, p, v, q, p2, t, k);
#endif
#if CASE == 7
struct Wide2 { double a; Vector<2, double> v; int k; double b; Vector<2, double> w; double c; }; MAKE_ATTRIBUTE_TRAIT(Wide2, a, v, k, b, w, c);
#endif
#if CASE == 3
struct Data2 { double p; Vector<2, double> v; int k; }; MAKE_ATTRIBUTE_TRAIT(Data2, p, v, k);
#endif
// the values of an attribute in a data file
static std::vector<double> column(const std::string& txt, const std::string& head, size_t n) { std::vector<double> r; size_t p = txt.find("\n" + head + "\n"); ASSERT(p != std::string::npos, "section of an attribute"); if (p == std::string::npos) return r;
    std::istringstream s(txt.substr(p + head.size() + 2)); for (size_t i = 0; i < n; i++) { double x = 0; s >> x; r.push_back(x); } ASSERT(!s.fail(), "values of an attribute"); std::string w; s >> w; ASSERT(w.empty() || w == "SCALARS" || w == "VECTORS" || w == "TENSORS", "an attribute has a value for each written cell and no more"); return r; }
void sx_main() {
#if CASE == 0 // FPMA files
    Geo3 g = shape3(choose(3)); auto pos = freePos<3>(g.p.size()); int v = choose(4); M3 m; mk(m, g, pos, v); if (choose(2)) m.setupBoundaryCells(); FPMAMeshWriter<3, uint64_t, double> w; std::stringstream s; s.precision(17); w.writeToStream(s, m); parseFpma(s.str(), g, pos);
    FPMAMeshReader<3> r; M3 n; if (choose(2)) { Geo3 o = geoTet(); mk(n, o, freePos<3>(4), 0); n.setupBoundaryCells(); sx_reach("reused"); } r.loadFromStream(s, n); checkRead(n, g, pos);
    for (I f = 0; f < g.fv.size(); f++) { Vi u; for (auto e : n.getFaces().at(f).getSubelements()) { u.push_back(n.getEdges()[e].getVertexAIndex()); u.push_back(n.getEdges()[e].getVertexBIndex()); } u = srt(u); u.erase(std::unique(u.begin(), u.end()), u.end()); ASSERT(u == srt(g.fv[f]), "faces keep their numbers"); }
    for (size_t c = 0; c < g.cf.size(); c++) ASSERT(r.getCellTypes().template getDataByPos<0>().at(c) == T3::POLYHEDRON, "cells are polyhedra"); ASSERT(r.getCellTypes().template getDataByPos<0>().size() == g.cf.size(), "a type for each cell");
    for (size_t c = 0; c < g.cf.size(); c++) { Vi a, b; auto f0 = m.getCells()[c].getBoundaryElementIndex(), f = f0; do { a.push_back(f); f = m.getFaces()[f].getNextBElem(c); } while (f != f0); f0 = n.getCells()[c].getBoundaryElementIndex(), f = f0; do { b.push_back(f); f = n.getFaces()[f].getNextBElem(c); } while (f != f0 && b.size() < 9); ASSERT(a == b, "the order of faces of a cell is kept"); }
    std::stringstream s2; s2.precision(17); FPMAMeshWriter<3, uint64_t, double> w2; w2.writeToStream(s2, n); parseFpma(s2.str(), g, pos);
    // the writer used again
    int ch = choose(7); if (ch == 0) { M3 b; mk(b, g, pos, (v + 1) % 4); m = b; } else if (ch == 4) { M3 b; build(b, g, pos, [&](I f) { return f == 0; }, [](I) { return false; }, [](I) { return (I)0; }); m = b; } else if (ch == 5) { if (g.cf.size() < 2) return; g = renumbered(g, 0, 0, 1); M3 b; mk(b, g, pos, v); m = b; } else if (ch == 6) { static const I pr[3][2] = {{0, 1}, {1, 3}, {0, 4}}; const I* q = pr[choose(3)]; g = renumbered(g, choose(2) + 1, q[0], q[1]); M3 b; mk(b, g, pos, v); m = b; } else if (ch == 1) { g = geoTets(); if (pos.size() == 5) g = geoTet(); pos = freePos<3>(g.p.size()); M3 b; mk(b, g, pos, v); m = b; } else if (ch == 2) { double d = symReal("d"); for (I i = 0; i < pos.size(); i++) { pos[i][1] = pos[i][1] + d; m.getVertices()[i][1] = pos[i][1]; } }
    else { Geo3 h = g; std::swap(h.fv[0], h.fv[1]); std::swap(h.fe[0], h.fe[1]); for (auto& c : h.cf) for (auto& f : c) if (f < 2) f = 1 - f; g = h; M3 b; mk(b, g, pos, v); m = b; }
    std::stringstream s3; s3.precision(17); w.writeToStream(s3, m); parseFpma(s3.str(), g, pos); sx_reach("end");
#elif CASE == 8 // FPMA files of many cells
    Geo3 g = geoGrid(NX, NY, NZ, WEDGES); auto pos = place(g, frame<3>(0xe00)); double sc = symReal("s", 0.5, 4); for (auto& p : pos) p[0] = p[0] * sc; int v = choose(2) ? 3 : 0; M3 m; mk(m, g, pos, v); if (v) m.setupBoundaryCells(); FPMAMeshWriter<3, uint64_t, double> w; std::stringstream s; s.precision(17); w.writeToStream(s, m); parseFpma(s.str(), g, pos);
    FPMAMeshReader<3> r; M3 n; r.loadFromStream(s, n); checkRead(n, g, pos); for (size_t c = 0; c < g.cf.size(); c++) { Vi a, b; auto f0 = m.getCells()[c].getBoundaryElementIndex(), f = f0; do { a.push_back(f); f = m.getFaces()[f].getNextBElem(c); } while (f != f0); f0 = n.getCells()[c].getBoundaryElementIndex(), f = f0; do { b.push_back(f); f = n.getFaces()[f].getNextBElem(c); } while (f != f0 && b.size() < 9); ASSERT(a == b, "the order of faces of a cell is kept"); } sx_reach("end");
#elif CASE == 9 // an FPMA file of very many vertices
    Geo3 g; g.p.resize(MANY); for (auto& c : confusableTets()) addTet(g, c[0], c[1], c[2], c[3]); auto pos = manyPos<3>(); std::stringstream s; s.precision(17); s << MANY << '\n'; for (auto& p : pos) s << p[0] << ' ' << p[1] << ' ' << p[2] << '\n'; s << g.fv.size() << '\n'; for (auto& f : g.fv) { s << f.size(); for (I x : f) s << ' ' << x; s << '\n'; } s << g.cf.size() << '\n'; for (auto& c : g.cf) { s << c.size(); for (I x : c) s << ' ' << x; s << '\n'; }
    // an FPMA file does not say the sides of its faces
    FPMAMeshReader<3> r; M3 n; r.loadFromStream(s, n); checkRead(n, g, pos); sx_reach("end");
#elif CASE == 1 // cells split into tetrahedra, centers arbitrary
    int sh = choose(3); Geo3 g = shape3(sh); auto pos = place(g, frame<3>(0xe00)); M3 m; mk(m, g, pos, choose(4)); m.initializeCenters(); std::vector<Vertex<3, double>> fc, cc; for (auto& f : m.getFaces()) fc.push_back(f.getCenter()); for (auto& c : m.getCells()) cc.push_back(c.getCenter());
    int same = choose(3); if (same == 1) cc[0] = fc[0]; else if (same == 2) { cc.back() = cc[0]; fc[1] = fc[0]; fc.back() = pos[0]; } // points that coincide
    for (I f = 0; f < fc.size(); f++) m.getFaces()[f].setCenter(fc[f]); for (I c = 0; c < cc.size(); c++) m.getCells()[c].setCenter(cc[c]);
    TypesOf<3>::type t(m, choose(2) ? T3::POLYHEDRON : T3::N_PYRAMID); VTKMeshWriter<3, uint64_t, double> w; std::stringstream s; s.precision(17); w.writeHeader(s, "title of data"); w.writeToStream(s, m, t); Vtk k = parseVtk(s.str());
    size_t nf = g.fv.size(), nc = g.cf.size(), nv = pos.size(), total = 0; for (auto& c : g.cf) for (I f : c) total += g.fv[f].size(); ASSERT(k.c.size() == total && w.getNumberOfCells() == total && k.p.size() == nv + nf + nc, "one tetrahedron for each edge of each face, one point for each face and each cell"); if (k.p.size() != nv + nf + nc) return;
    for (size_t i = 0; i < nv; i++) for (int d = 0; d < 3; d++) sx_assert_close(k.p[i][d], pos[i][d], "written coordinates"); ASSERT(w.backwardCellIndexMapping.size() == total, "every tetrahedron knows its cell");
    std::map<I, I> facePoint, cellPoint; std::vector<std::array<I, 4>> seen; // (cell, face, edge) of each tetrahedron, from the points' roles
    for (size_t i = 0; i < k.c.size(); i++) { auto& x = k.c[i]; ASSERT(k.t[i] == 10 && x.size() == 4 && x[0] < nv && x[1] < nv && x[2] >= nv && x[3] >= nv && x[2] != x[3] && hasEdge(g, x[0], x[1]), "a tetrahedron of an edge, a face center and a cell center"); I c = w.backwardCellIndexMapping.at(i); ASSERT(c < nc, "tetrahedra belong to cells of the mesh"); if (!cellPoint.count(c)) cellPoint[c] = x[3]; ASSERT(cellPoint[c] == x[3], "one center per cell"); seen.push_back({{c, x[2], std::min(x[0], x[1]), std::max(x[0], x[1])}}); }
    for (size_t i = 0; i < seen.size(); i++) { for (size_t j = 0; j < i; j++) ASSERT(seen[i] != seen[j], "no tetrahedron is written twice"); }
    for (I c = 0; c < nc; c++) { ASSERT(cellPoint.count(c) == 1, "every cell is split"); for (int d = 0; d < 3; d++) sx_assert_close(k.p[cellPoint[c]][d], cc[c][d], "center of a split cell"); }
    // edges joined to one point in one cell form a face of that cell, the same face in each cell
    for (size_t i = 0; i < seen.size(); i++) { Vi vs; size_t cnt = 0; for (auto& y : seen) if (y[0] == seen[i][0] && y[1] == seen[i][1]) { vs.push_back(y[2]); vs.push_back(y[3]); cnt++; } vs = srt(vs); vs.erase(std::unique(vs.begin(), vs.end()), vs.end()); I o = NONE; for (I f : g.cf[seen[i][0]]) if (srt(g.fv[f]) == vs && g.fv[f].size() == cnt) o = f; ASSERT(o != NONE, "the tetrahedra around a face center fill a face of the cell"); if (o == NONE) return; if (!facePoint.count(o)) facePoint[o] = seen[i][1]; ASSERT(facePoint[o] == seen[i][1], "both cells of a face use the same face center"); }
    ASSERT(facePoint.size() == nf, "every face is split"); for (auto& f : facePoint) for (int d = 0; d < 3; d++) sx_assert_close(k.p[f.second][d], fc[f.first][d], "center of a split face"); sx_reach("end");
#elif CASE == 2 // data on cells, some of them split
    int sh = choose(3); Geo3 g = sh == 0 ? geoPrismPyr() : sh == 1 ? geoTets() : geoTet(); auto pos = place(g, triFrame(0, false, 0)); M3 m; mk(m, g, pos, 0); m.initializeCenters(); TypesOf<3>::type t(m); std::vector<int> tv = sh == 2 ? std::vector<int>{T3::TETRA} : typesOf(sh + 1); for (I c = 0; c < g.cf.size(); c++) t.getDataByPos<0>()[c] = (T3::ElementType)(choose(2) ? T3::POLYHEDRON : tv[c]);
    std::stringstream s; s.precision(17); VTKMeshWriter<3, uint64_t, double> w; w.writeHeader(s, "title of data"); w.writeToStream(s, m, t); size_t n = w.getNumberOfCells(); std::vector<I> back; for (I c = 0; c < g.cf.size(); c++) { size_t k = 0; if (t.getDataByPos<0>()[c] == T3::POLYHEDRON) for (I f : g.cf[c]) k += g.fv[f].size(); else k = 1; while (k--) back.push_back(c); } ASSERT(back.size() == n, "number of written cells");
    std::vector<Data> a(g.cf.size()); std::vector<More> b(g.cf.size()); std::vector<double> e(g.cf.size()); for (auto& x : a) { x.p = symReal("p"); x.k = (int)sx_i64("k", -1000000, 1000000); for (int d = 0; d < 3; d++) x.v[d] = symReal("v"); } for (auto& x : b) { x.q = symReal("q"); x.hidden = 1; for (auto& y : x.t) y = symReal("t"); } for (auto& x : e) x = symReal("e");
    std::string head = s.str(); M3 nm; VTKMeshReader<3> r; { std::stringstream s1(head); r.loadFromStream(s1, nm); } ASSERT(nm.getCells().size() == n, "written cells are read"); int mode = choose(5);
    auto chk = [&](const std::string& txt, const char* name, size_t k, auto val) { auto c = column(txt, std::string(k == 1 ? "SCALARS " : k == 3 ? "VECTORS " : "TENSORS ") + name + " double" + (k == 1 ? " 1\nLOOKUP_TABLE default" : ""), n * k); for (size_t i = 0; i < c.size(); i++) sx_assert_close(c[i], val(back[i / k], i % k), "each written cell carries the data of its mesh cell"); };
    auto count = [&](const std::string& txt) { size_t p = txt.find("CELL_DATA "); ASSERT(p != std::string::npos && txt.find("CELL_DATA ", p + 1) == std::string::npos, "one CELL_DATA section"); std::istringstream c(txt.substr(p + 10)); I x = NONE; c >> x; ASSERT(x == n, "CELL_DATA states the number of written cells"); };
    auto chkA = [&](const std::string& x) { chk(x, "p", 1, [&](I c, size_t) { return a[c].p; }); chk(x, "k", 1, [&](I c, size_t) { return (double)a[c].k; }); chk(x, "v", 3, [&](I c, size_t d) { return a[c].v[d]; }); };
    auto cmpA = [&](const Data& x, I c) { sx_assert_close(x.p, a[c].p, "data read back"); ASSERT(x.k == a[c].k, "data read back"); for (int d = 0; d < 3; d++) sx_assert_close(x.v[d], a[c].v[d], "data read back"); };
    if (mode == 0) { MeshDataContainer<Data, 3> d(m); for (I c = 0; c < g.cf.size(); c++) d.getDataByPos<0>()[c] = a[c]; VTKMeshDataWriter<3>::writeToStream(s, d, w); count(s.str()); chkA(s.str()); MeshDataContainer<Data, 3> q(nm); VTKMeshDataReader<3, uint64_t>::readFromStream(s, q); for (size_t i = 0; i < n; i++) cmpA(q.getDataByPos<0>().at(i), back[i]); sx_reach("simple"); }
    else if (mode == 1) { MeshDataContainer<std::tuple<Data, Plain, More>, 3, 2, 3> d(m); for (I c = 0; c < g.cf.size(); c++) { d.getDataByPos<0>()[c] = a[c]; d.getDataByPos<2>()[c] = b[c]; } VTKMeshDataWriter<3>::writeToStream(s, d, w); std::string x = s.str(); count(x); chkA(x); chk(x, "quantity", 1, [&](I c, size_t) { return b[c].q; }); chk(x, "tens", 9, [&](I c, size_t k) { return b[c].t[k]; });
        MeshDataContainer<std::tuple<More, Data>, 3, 3> q(nm); VTKMeshDataReader<3, uint64_t>::readFromStream(s, q); for (size_t i = 0; i < n; i++) { cmpA(q.getDataByPos<1>().at(i), back[i]); sx_assert_close(q.getDataByPos<0>()[i].q, b[back[i]].q, "data read back"); for (int k = 0; k < 9; k++) sx_assert_close(q.getDataByPos<0>()[i].t[k], b[back[i]].t[k], "data read back"); } sx_reach("several"); }
    else if (mode == 2) { MeshDataContainer<std::tuple<Set, Both>, 3, 3> d(m); for (I c = 0; c < g.cf.size(); c++) { d.getDataByPos<0>()[c].a = e[c]; d.getDataByPos<1>()[c].b = b[c].q; d.getDataByPos<1>()[c].a = 0; } VTKMeshDataWriter<3>::writeToStream(s, d, w); std::string x = s.str(); count(x); chk(x, "acc", 1, [&](I c, size_t) { return e[c]; }); chk(x, "b", 1, [&](I c, size_t) { return b[c].q; }); ASSERT(x.find("SCALARS a ") == std::string::npos, "traits for input and output take precedence");
        MeshDataContainer<std::tuple<Set, Both>, 3, 3> q(nm); VTKMeshDataReader<3, uint64_t>::readFromStream(s, q); for (size_t i = 0; i < n; i++) { sx_assert_close(q.getDataByPos<0>()[i].a, e[back[i]], "data read back"); sx_assert_close(q.getDataByPos<1>()[i].b, b[back[i]].q, "data read back"); } sx_reach("access"); }
    else if (mode == 3) { auto tr = makeTraits<Plain>("plain", &Plain::z); auto t2 = makeTraits<Data>("velocity", &Data::v, "pressure", &Data::p); MeshDataContainer<std::tuple<Plain, Data>, 3, 3> d(m); for (I c = 0; c < g.cf.size(); c++) { d.getDataByPos<0>()[c].z = e[c]; d.getDataByPos<1>()[c] = a[c]; }
        if (choose(2)) VTKMeshDataWriter<3>::writeToStream(s, bindTraits(d, tr, t2), w); else VTKMeshDataWriter<3>::writeToStream(s, d, w, std::make_tuple(t2, tr)); std::string x = s.str(); count(x); chk(x, "plain", 1, [&](I c, size_t) { return e[c]; }); chk(x, "velocity", 3, [&](I c, size_t k) { return a[c].v[k]; }); chk(x, "pressure", 1, [&](I c, size_t) { return a[c].p; });
        MeshDataContainer<std::tuple<Data, Plain>, 3, 3> q(nm); if (choose(2)) VTKMeshDataReader<3, uint64_t>::readFromStream(s, bindTraits(q, t2, tr)); else VTKMeshDataReader<3, uint64_t>::readFromStream(s, q, std::make_tuple(tr, t2)); for (size_t i = 0; i < n; i++) { sx_assert_close(q.getDataByPos<1>()[i].z, e[back[i]], "data read back"); sx_assert_close(q.getDataByPos<0>()[i].p, a[back[i]].p, "data read back"); for (int k = 0; k < 3; k++) sx_assert_close(q.getDataByPos<0>()[i].v[k], a[back[i]].v[k], "data read back"); } sx_reach("bound"); }
    else { DataContainer<Data, 3> d; for (auto& x : a) d.push_back(x); VTKMeshDataWriter<3>::writeToStream(s, d, w); count(s.str()); chkA(s.str()); DataContainer<Data, 3> q; q.resize(n); VTKMeshDataReader<3, uint64_t>::readFromStream(s, q); for (size_t i = 0; i < n; i++) cmpA(q.at(i), back[i]); sx_reach("single"); }
    sx_reach("end");
#elif CASE == 6 // many cells, any of the first ones split, a wide record
    std::vector<int> kind; Geo3 g = geoGrid(NX, NY, NZ, WEDGES, &kind); auto pos = place(g, frame<3>(0)); M3 m; mk(m, g, pos, 0); m.initializeCenters(); TypesOf<3>::type t(m); I nc = g.cf.size();
    for (I c = 0; c < nc; c++) t.getDataByPos<0>()[c] = (T3::ElementType)((c < NSYM ? choose(2) : (c * c) % 5 < 2) ? T3::POLYHEDRON : kind[c] == 4 ? T3::HEXAHEDRON : T3::WEDGE);
    std::stringstream s; s.precision(17); VTKMeshWriter<3, uint64_t, double> w; w.writeHeader(s, "title of data"); w.writeToStream(s, m, t); std::vector<I> back; for (I c = 0; c < nc; c++) { size_t k = 0; if (t.getDataByPos<0>()[c] == T3::POLYHEDRON) for (I f : g.cf[c]) k += g.fv[f].size(); else k = 1; while (k--) back.push_back(c); } size_t n = w.getNumberOfCells(); ASSERT(back.size() == n, "number of written cells");
    MeshDataContainer<Wide, 3> d(m); for (I c = 0; c < nc; c++) { auto& x = d.getDataByPos<0>()[c]; x.a = symReal("a"); x.k = (int)(c * 100); x.b = c + 0.5; x.c = (float)c; for (int i = 0; i < 3; i++) { x.v[i] = c < 4 ? symReal("v") : c * 10.0 + i; x.w[i] = c < 2 ? symReal("w") : -(double)c - i; } for (int i = 0; i < 9; i++) x.t[i] = c < 1 ? symReal("t") : c * 20.0 + i; } auto& a = d.getDataByPos<0>();
    VTKMeshDataWriter<3>::writeToStream(s, d, w); std::string txt = s.str(); auto chk = [&](const char* name, size_t k, auto val) { auto c = column(txt, std::string(k == 1 ? "SCALARS " : k == 3 ? "VECTORS " : "TENSORS ") + name + " double" + (k == 1 ? " 1\nLOOKUP_TABLE default" : ""), n * k); for (size_t i = 0; i < c.size(); i++) sx_assert_close(c[i], val(a[back[i / k]], i % k), "each written cell carries the data of its mesh cell"); };
    chk("a", 1, [](const Wide& x, size_t) { return x.a; }); chk("v", 3, [](const Wide& x, size_t i) { return x.v[i]; }); chk("k", 1, [](const Wide& x, size_t) { return (double)x.k; }); chk("t", 9, [](const Wide& x, size_t i) { return x.t[i]; }); chk("b", 1, [](const Wide& x, size_t) { return x.b; }); chk("w", 3, [](const Wide& x, size_t i) { return x.w[i]; }); chk("c", 1, [](const Wide& x, size_t) { return (double)x.c; });
    DataContainer<Wide, 3> q; q.resize(n); VTKMeshDataReader<3, uint64_t>::readFromStream(s, q); for (size_t i = 0; i < n; i++) { auto &x = q[i], &y = a[back[i]]; sx_assert_close(x.a, y.a, "data read back"); sx_assert_close(x.b, y.b, "data read back"); ASSERT(x.k == y.k && x.c == y.c, "data read back"); for (int k = 0; k < 3; k++) { sx_assert_close(x.v[k], y.v[k], "data read back"); sx_assert_close(x.w[k], y.w[k], "data read back"); } for (int k = 0; k < 9; k++) sx_assert_close(x.t[k], y.t[k], "data read back"); } sx_reach("end");
#elif CASE == 7 // many polygons, a wide record
    Geo2 g = geoGrid2(NX, NY); auto pos = place(g, frame<2>(0)); M2 m; mk(m, g, pos, 0); TypesOf<2>::type t(m, T2::QUAD); std::stringstream s; s.precision(17); VTKMeshWriter<2, uint64_t, double> w; w.writeHeader(s, "title of data"); w.writeToStream(s, m, t); I n = g.cf.size();
    MeshDataContainer<Wide2, 2> d(m); auto& a = d.getDataByPos<0>(); for (I c = 0; c < n; c++) { auto& x = a[c]; x.a = symReal("a"); x.k = (int)(c * 100); x.b = symReal("b"); x.c = c; for (int i = 0; i < 2; i++) { x.v[i] = symReal("v"); x.w[i] = -(double)c - i; } } VTKMeshDataWriter<2>::writeToStream(s, d, w); std::string txt = s.str();
    auto chk = [&](const char* name, size_t k, auto val) { auto c = column(txt, std::string(k == 1 ? "SCALARS " : "VECTORS ") + name + " double" + (k == 1 ? " 1\nLOOKUP_TABLE default" : ""), n * k); for (size_t i = 0; i < c.size(); i++) sx_assert_close(c[i], val(a[i / k], i % k), "each written cell carries the data of its mesh cell"); };
    chk("a", 1, [](const Wide2& x, size_t) { return x.a; }); chk("v", 3, [](const Wide2& x, size_t i) { return i < 2 ? x.v[i] : 0; }); chk("k", 1, [](const Wide2& x, size_t) { return (double)x.k; }); chk("b", 1, [](const Wide2& x, size_t) { return x.b; }); chk("w", 3, [](const Wide2& x, size_t i) { return i < 2 ? x.w[i] : 0; }); chk("c", 1, [](const Wide2& x, size_t) { return x.c; });
    MeshDataContainer<Wide2, 2> q(m); VTKMeshDataReader<2, uint64_t>::readFromStream(s, q); for (size_t i = 0; i < n; i++) { auto &x = q.getDataByPos<0>()[i], &y = a[i]; sx_assert_close(x.a, y.a, "data read back"); sx_assert_close(x.b, y.b, "data read back"); ASSERT(x.k == y.k && x.c == y.c, "data read back"); for (int k = 0; k < 2; k++) { sx_assert_close(x.v[k], y.v[k], "data read back"); sx_assert_close(x.w[k], y.w[k], "data read back"); } } sx_reach("end");
#elif CASE == 10 // files of other programs
    static const char* titles[] = {"of cells", "SCALARS p double 1", "VECTORS v", "x SCALARS q TENSORS t", "CELL_DATA 2"}; int has = choose(8); std::vector<std::string> sec; double val[2][24], old[24]; for (int i = 0; i < 24; i++) { val[0][i] = symReal("x"); val[1][i] = symReal("y"); old[i] = symReal("old"); }
    bool pt = choose(2), before = pt && choose(2); int tab = choose(2); auto attr = [&](std::ostream& o, const char* kind, const char* name, int from, int k, bool s, int n) { o << kind << " " << name << " double"; if (s) o << (tab ? "\nLOOKUP_TABLE default" : " 1\nLOOKUP_TABLE default"); o << "\n"; for (int c = 0; c < n; c++) for (int i = 0; i < k; i++) { if (n == 2) o << val[c][from + i]; else o << 777 + i; o << (i + 1 < k ? " " : tab ? "\n" : " "); } if (!tab) o << "\n"; };
    std::stringstream s; s.precision(17); s << "# vtk DataFile Version 2.0\n" << titles[choose(5)] << "\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 5 double\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 1 -1\n\nCELLS 2 10\n4 0 1 2 3\n4 0 1 2 4\n\nCELL_TYPES 2\n10\n10\n\n";
    auto points = [&] { s << "POINT_DATA 5\n"; attr(s, "SCALARS", "p", 0, 1, true, 5); attr(s, "SCALARS", "k", 0, 1, true, 5); attr(s, "VECTORS", "v", 0, 3, false, 5); attr(s, "TENSORS", "t", 0, 9, false, 5); s << "\n"; }; if (before) points();
    s << "CELL_DATA 2\n"; if (choose(2)) attr(s, "SCALARS", "p3", 20, 1, true, 2); attr(s, "SCALARS", "p2", 0, 1, true, 2); if (has & 1) attr(s, "VECTORS", "v", 1, 3, false, 2); attr(s, "VECTORS", "vv", 20, 3, false, 2); attr(s, "SCALARS", "p", 4, 1, true, 2); if (has & 2) attr(s, "TENSORS", "t", 5, 9, false, 2); if (has & 4) attr(s, "SCALARS", "q", 14, 1, true, 2); if (pt && !before) points(); sx_reach("end");
    auto fill = [&](Part& x) { x.p = old[0]; x.p2 = old[1]; x.q = old[2]; x.k = 5; for (int i = 0; i < 3; i++) x.v[i] = old[3 + i]; for (int i = 0; i < 9; i++) x.t[i] = old[6 + i]; };
    auto cmp = [&](const Part& x, int c) { sx_assert_close(x.p2, val[c][0], "data read back"); sx_assert_close(x.p, val[c][4], "data read back"); ASSERT(x.k == 5, "attributes missing in the cell data stay"); for (int i = 0; i < 3; i++) sx_assert_close(x.v[i], has & 1 ? val[c][1 + i] : old[3 + i], has & 1 ? "data read back" : "attributes missing in the cell data stay"); for (int i = 0; i < 9; i++) sx_assert_close(x.t[i], has & 2 ? val[c][5 + i] : old[6 + i], has & 2 ? "data read back" : "attributes missing in the cell data stay"); sx_assert_close(x.q, has & 4 ? val[c][14] : old[2], has & 4 ? "data read back" : "attributes missing in the cell data stay"); };
    if (choose(2)) { DataContainer<Part, 3> q; q.resize(2); for (auto& x : q) fill(x); VTKMeshDataReader<3, uint64_t>::readFromStream(s, q); for (int c = 0; c < 2; c++) cmp(q[c], c); }
    else { VTKMeshReader<3> r; M3 m; r.loadFromStream(s, m); ASSERT(m.getCells().size() == 2, "mesh of the file"); MeshDataContainer<Part, 3> q(m); for (auto& x : q.getDataByPos<0>()) fill(x); VTKMeshDataReader<3, uint64_t>::readFromStream(s, q); for (int c = 0; c < 2; c++) cmp(q.getDataByPos<0>()[c], c); }
#elif CASE == 3 // planar data
    Geo2 g = geoFlat(); auto pos = freePos<2>(g.p.size()); M2 m; mk(m, g, pos, choose(4)); TypesOf<2>::type t(m); t.getDataByPos<0>()[0] = t.getDataByPos<0>()[1] = T2::QUAD; t.getDataByPos<0>()[2] = T2::TRIANGLE; std::stringstream s; s.precision(17); VTKMeshWriter<2, uint64_t, double> w; w.writeHeader(s, "title of data"); w.writeToStream(s, m, t);
    MeshDataContainer<Data2, 2> d(m); for (auto& x : d.getDataByPos<0>()) { x.p = symReal("p"); x.k = (int)sx_i64("k", -1000000, 1000000); x.v[0] = symReal("v"); x.v[1] = symReal("v"); } auto& dd = d.getDataByPos<0>(); auto tr = makeTraits<Data2>("p", &Data2::p, "v", &Data2::v, "k", &Data2::k); bool bound = choose(2); if (bound) VTKMeshDataWriter<2>::writeToStream(s, bindTraits(d, tr), w); else VTKMeshDataWriter<2>::writeToStream(s, d, w); std::string x = s.str();
    auto c = column(x, "SCALARS p double 1\nLOOKUP_TABLE default", 3); for (size_t i = 0; i < c.size(); i++) sx_assert_close(c[i], dd[i].p, "each written cell carries the data of its mesh cell"); c = column(x, "SCALARS k double 1\nLOOKUP_TABLE default", 3); for (size_t i = 0; i < c.size(); i++) sx_assert_close(c[i], dd[i].k, "each written cell carries the data of its mesh cell");
    c = column(x, "VECTORS v double", 9); for (size_t i = 0; i < c.size(); i++) sx_assert_close(c[i], i % 3 == 2 ? 0 : dd[i / 3].v[i % 3], "planar vectors are written with a zero third component");
    MeshDataContainer<Data2, 2> q(m); if (choose(2)) VTKMeshDataReader<2, uint64_t>::readFromStream(s, bindTraits(q, tr)); else VTKMeshDataReader<2, uint64_t>::readFromStream(s, q); for (size_t i = 0; i < 3; i++) { auto& y = q.getDataByPos<0>()[i]; sx_assert_close(y.p, dd[i].p, "data read back"); ASSERT(y.k == dd[i].k, "data read back"); sx_assert_close(y.v[0], dd[i].v[0], "data read back"); sx_assert_close(y.v[1], dd[i].v[1], "data read back"); } sx_reach("end");
#elif CASE == 4 // files by their names
    typedef std::unique_ptr<MeshWriter<3>> W; typedef std::unique_ptr<MeshReader<3>> Rd; Geo3 g = geoTets(); std::vector<Vertex<3, double>> pos = place(g, frame<3>(0)); double d = symReal("d"); if (sx_in_engine()) for (auto& p : pos) p[0] = p[0] + d; M3 m; mk(m, g, pos, choose(2)); m.initializeCenters();
    static const char* names[] = {"mesh.vtk", "mesh.fpma", "dir.vtk.fpma", "dir.fpma.vtk", "./a.b/m.vtk", "mesh.txt", "mesh", ".vtk", "./mesh", "x.fpma.bak", "m.VTK", "m.vtk2", "m.vt", "vtk", "m.vtk.", "m.xfpma"}; int k = choose(16); std::string name = names[k]; if (k == 4) name = "m.m.vtk"; int kind = k == 0 || k == 3 || k == 4 || k == 7 ? 1 : k == 1 || k == 2 ? 2 : 0;
    { bool threw = false; M3 n; try { n.load("missing_" + std::string(k < 4 ? "a.vtk" : "b.fpma")); } catch (std::runtime_error&) { threw = true; } ASSERT(threw, "loading a missing file is refused"); }
    TypesOf<3>::type t(m, T3::TETRA); int how = choose(5); W w; bool tess = false; auto before = k % 2; bool kept = kind || choose(2); if (!kind && kept) { std::ofstream f(name); f << "of another program\n"; }
    if (how == 0) w = m.write(name, t, "title of data"); else if (how == 1) { w = m.write(name, "title of data"); tess = true; } else if (how == 2) { if (before) w.reset(new VTKMeshWriter<3>()); else w.reset(new FPMAMeshWriter<3>()); m.write(name, w, t, "title of data"); } else if (how == 4) { int b = choose(3); if (b == 1) w.reset(new VTKMeshWriter<3>()); if (b == 2) w.reset(new FPMAMeshWriter<3>()); if (b) m.write(name, w, TypesOf<3>::type(), "title of data"); else m.write(name, w, VTKMeshReader<3>(), "title of data"); tess = true; } else { M3 o; Rd rd; { M3 tmp = m; tmp.write("other.vtk", t, "x"); rd = o.load("other.vtk"); } w = m.write(name, *rd, "title of data"); }
    if (kind) { ASSERT(w != nullptr && (kind == 1 ? dynamic_cast<VTKMeshWriter<3>*>(w.get()) != nullptr : dynamic_cast<FPMAMeshWriter<3>*>(w.get()) != nullptr), "the writer is the one of the extension"); std::ifstream f(name); ASSERT(f.is_open(), "the file is written"); std::stringstream ss; ss << f.rdbuf(); std::string txt = ss.str(); f.close();
        if (kind == 1) { Vtk v = parseVtk(txt); if (tess) ASSERT(v.c.size() == 24, "without types cells are split"); else { ASSERT(v.c.size() == 2, "cells of the given types"); for (I c = 0; c < 2; c++) ASSERT(v.t.at(c) == 10 && srt(v.c.at(c)) == vertsOf(g, c), "cells of the given types"); } }
        M3 n; Rd r = n.load(name); ASSERT(r != nullptr && (kind == 1 ? dynamic_cast<VTKMeshReader<3>*>(r.get()) != nullptr : dynamic_cast<FPMAMeshReader<3>*>(r.get()) != nullptr), "the reader is the one of the extension"); if (!(kind == 1 && tess)) checkRead(n, g, pos); ASSERT(r->getCellTypes().getDataByPos<0>().at(0) == (kind == 1 ? T3::TETRA : T3::POLYHEDRON), "the reader knows the types");
        // the same writer again, and for the other format
        double e = symReal("e"); if (sx_in_engine()) for (I i = 0; i < pos.size(); i++) { pos[i][1] = pos[i][1] + e; m.getVertices()[i][1] = pos[i][1]; } std::string second = choose(2) ? "again.vtk" : "again.fpma"; if (tess) { if (choose(2)) m.write(second, w, t, "title of data"); else m.write(second, w, *r, "title of data"); if (second == "again.vtk") tess = false; } else m.write(second, w, t, "title of data"); if (!tess || second == "again.fpma") { M3 n2; n2.load(second); if (second == "again.fpma" || n2.getCells().size() == 2) checkRead(n2, g, pos); else ASSERT(kind == 2, "the types of the last reader"); } sx_reach("known");
    } else { ASSERT(w == nullptr || how == 2, "no writer for another extension"); { std::ifstream x(name); std::stringstream q; if (x.is_open()) q << x.rdbuf(); ASSERT(x.is_open() == kept && q.str() == (kept ? "of another program\n" : ""), "nothing is written to a file of another extension"); } std::ofstream f("plain.txt"); f << "1 2 3\n"; f.close(); M3 n; ASSERT(n.load("plain.txt") == nullptr, "no reader for another extension"); ASSERT(n.getVertices().size() == 0, "nothing is loaded"); sx_reach("other"); }
    sx_reach("end");
#elif CASE == 5 // planar files
    typedef std::unique_ptr<MeshWriter<2>> W; typedef std::unique_ptr<MeshReader<2>> Rd; Geo2 g = geoFlat(); auto pos = place(g, frame<2>(0)); double d = symReal("d"); if (sx_in_engine()) for (auto& p : pos) p[0] = p[0] + d; M2 m; mk(m, g, pos, choose(2)); std::string name = choose(2) ? "flat.vtk" : "b.fpma.vtk"; TypesOf<2>::type t(m); std::vector<int> tv{T2::QUAD, T2::QUAD, T2::TRIANGLE}; for (I c = 0; c < 3; c++) t.getDataByPos<0>()[c] = (T2::ElementType)tv[c]; int how = choose(3); W w;
    if (how == 0) w = m.write(name, t, "title of data"); else if (how == 1) { w = m.write(name, "title of data"); tv = {T2::POLYGON, T2::POLYGON, T2::POLYGON}; } else { w.reset(new VTKMeshWriter<2>()); if (choose(2)) m.write(name, w, t, "title of data"); else { m.write(name, w); tv = {T2::POLYGON, T2::POLYGON, T2::POLYGON}; } }
    ASSERT(w != nullptr, "a writer for VTK"); M2 n; Rd r = n.load(name); ASSERT(r != nullptr, "a reader for VTK"); checkRead(n, g, pos); for (I c = 0; c < 3; c++) ASSERT(r->getCellTypes().getDataByPos<0>().at(c) == tv[c], "types of the cells");
    double e = symReal("e"); if (sx_in_engine()) for (I i = 0; i < pos.size(); i++) { pos[i][1] = pos[i][1] + e; m.getVertices()[i][1] = pos[i][1]; } m.write(name, w, *r, "title of data"); M2 n2; n2.load(name); checkRead(n2, g, pos); ASSERT(m.write("flat.txt", t, "") == nullptr, "no writer for another extension"); { static const char* o[] = {"o.txt", "o.fpma", "o.vtk.bak"}; const char* on = o[choose(3)]; bool kept = choose(2); if (kept) { std::ofstream f(on); f << "kept"; } if (choose(2)) m.write(on, w, t, "x"); else m.write(on, w, *r, "x"); std::ifstream x(on); std::stringstream q; if (x.is_open()) q << x.rdbuf(); ASSERT(x.is_open() == kept && q.str() == (kept ? "kept" : ""), "nothing is written to a file of another extension"); } bool threw = false; try { n.load("none.vtk"); } catch (std::runtime_error&) { threw = true; } ASSERT(threw, "loading a missing file is refused"); sx_reach("end");
#endif
}
