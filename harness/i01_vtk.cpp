#include "vtk.h"
#include <GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h>
#ifndef IDX
#define IDX uint64_t
#endif
#ifndef PERM
#define PERM 0
#endif
#ifndef OFF
#define OFF 7
#endif
#define PERIOD(i, k) (((i) + (k)) % 3 == 0)
typedef UnstructuredMesh<3, IDX, double> M3; typedef UnstructuredMesh<2, IDX, double> M2;
static std::vector<int> typesOf(int shape) { return shape == 0 ? std::vector<int>{T3::HEXAHEDRON} : shape == 1 ? std::vector<int>{T3::WEDGE, T3::PYRAMID} : std::vector<int>{T3::TETRA, T3::TETRA}; }
static TypesOf<3>::type types3(M3& m, const std::vector<int>& t) { TypesOf<3>::type r(m); for (size_t i = 0; i < t.size(); i++) r.getDataByPos<0>()[i] = (T3::ElementType)t[i]; return r; }
static std::string write3(VTKMeshWriter<3, IDX, double>& w, M3& m, const TypesOf<3>::type& t) { std::stringstream s; s.precision(17); w.writeHeader(s, "title of data"); w.writeToStream(s, m, t); return s.str(); }
static std::string write2(VTKMeshWriter<2, IDX, double>& w, M2& m, const TypesOf<2>::type& t) { std::stringstream s; s.precision(17); w.writeHeader(s, "title of data"); w.writeToStream(s, m, t); return s.str(); }
template<class S> static Geo3 shape3(S s) { return s == 0 ? geoTrapez() : s == 1 ? geoPrismPyr() : geoTets(); }
// build with one of several assignments of sides, edge directions and orders
template<class M, unsigned D> static void mk(M& m, const Geo<D>& g, const std::vector<Vertex<D, double>>& pos, int v) {
    build(m, g, pos, [v](I f) { return v == 1 || (v == 2 && PERIOD(f, 0)) || (v == 3 && f % 2); }, [v](I e) { return v == 1 || (v == 2 && e % 2) || (v == 3 && PERIOD(e, 1)); }, [v](I f) { return v == 3 ? f : (I)v; });
}
void sx_main() {
#if CASE == 0 // a written mesh and reading it back
    Geo3 g = shape3(SHAPE); auto pos = place(g, triFrame(PERM, true, OFF)); int v = choose(4); M3 m; mk(m, g, pos, v); m.initializeCenters(); if (choose(2)) { m.setupBoundaryCells(); }
    auto tv = typesOf(SHAPE); auto t = types3(m, tv); VTKMeshWriter<3, IDX, double> w; std::string txt = write3(w, m, t); Vtk k = parseVtk(txt);
    ASSERT(k.p.size() == pos.size() && k.c.size() == g.cf.size() && w.getNumberOfCells() == g.cf.size(), "as many points and cells as in the mesh");
    for (size_t i = 0; i < pos.size(); i++) for (int d = 0; d < 3; d++) sx_assert_close(k.p[i][d], pos[i][d], "written coordinates");
    for (size_t c = 0; c < g.cf.size(); c++) checkCell(g, pos, c, tv[c], k.t[c], k.c[c]);
    VTKMeshReader<3> r; M3 n; if (choose(2)) { Geo3 o = geoTet(); mk(n, o, place(o, triFrame(0, false, 0)), 0); n.setupBoundaryCells(); sx_reach("reused"); } std::stringstream s(txt); if (choose(2)) { std::string x; s >> x; } r.loadFromStream(s, n); checkRead(n, g, pos);
    for (size_t c = 0; c < g.cf.size(); c++) ASSERT(r.getCellTypes().getDataByPos<0>().at(c) == tv[c], "types of read cells");
    // and once more from the mesh just read
    n.initializeCenters(); VTKMeshWriter<3, IDX, double> w2; auto ty = r.getCellTypes(); Vtk q = parseVtk(write3(w2, n, ty)); for (size_t c = 0; c < g.cf.size(); c++) checkCell(g, pos, c, tv[c], q.t.at(c), q.c.at(c));
    sx_reach("end");
#elif CASE == 1 // a writer used again after a change writes what a fresh one does
    Geo3 g = shape3(SHAPE); auto fr = triFrame(PERM, true, OFF); auto pos = place(g, fr); M3 m; mk(m, g, pos, 0); m.initializeCenters(); auto tv = typesOf(SHAPE); auto t = types3(m, tv); if (choose(2)) { tv[0] = T3::POLYHEDRON; t = types3(m, tv); sx_reach("split"); }
    VTKMeshWriter<3, IDX, double> w; Vtk before = parseVtk(write3(w, m, t)); auto back0 = w.backwardCellIndexMapping; M3 m0; m0 = m; auto t0 = t; int ch = choose(13); std::vector<int> tn = tv; bool check = true; std::string why;
    if (ch == 0) { M3 b; mk(b, g, pos, choose(3) + 1); b.initializeCenters(); m = b; }
    else if (ch == 1) { for (int& k : tn) if (choose(2)) k = k == T3::POLYHEDRON ? typesOf(SHAPE)[&k - tn.data()] : (int)T3::POLYHEDRON; t = types3(m, tn); check = false; }
    else if (ch == 2) { for (auto& p : pos) p[2] = -p[2]; M3 b; mk(b, g, pos, 0); b.initializeCenters(); m = b; } // mirrored
    else if (ch == 3) { double d = symReal("d"); for (auto& p : pos) p[0] = p[0] + d; for (I i = 0; i < pos.size(); i++) for (int k = 0; k < 3; k++) m.getVertices()[i][k] = pos[i][k]; m.initializeCenters(); }
    else if (ch == 4) { g = SHAPE == 2 ? geoPrismPyr() : geoTets(); pos = place(g, fr); M3 b; mk(b, g, pos, 0); b.initializeCenters(); m = b; tn = tv = typesOf(SHAPE == 2 ? 1 : 2); t = types3(m, tv); }
    else if (ch == 5) { M3 b; b = m; m.clear(); std::stringstream e; e.precision(17); auto tz = types3(m, {}); write3(w, m, tz); m = b; }
    else if (ch == 6) { if (SHAPE != 2) return; // the same points, the corners of the cells exchanged
        std::swap(pos[0], pos[1]); M3 b; mk(b, g, pos, 0); b.initializeCenters(); m = b; }
    else if (ch == 7) { M3 b; int s = choose(2); build(b, g, pos, [&](I f) { return s ? f == 1 : true; }, [](I) { return false; }, [](I) { return (I)0; }); b.initializeCenters(); m = b; } // only the sides of the faces
    else if (ch == 8) { M3 b; int s = choose(2); build(b, g, pos, [](I) { return false; }, [&](I e) { return s ? e == 2 : false; }, [&](I f) { return s ? (I)0 : f == 1 ? 1 : 0; }); b.initializeCenters(); m = b; } // only one edge turned, only one face started elsewhere
    else if (ch == 9) { if (g.cf.size() < 2) return; g = renumbered(g, 0, 0, 1); M3 b; mk(b, g, pos, 0); b.initializeCenters(); m = b; std::swap(tn[0], tn[1]); tv = tn; t = types3(m, tn); }
    else if (ch == 10) { static const I pr[3][2] = {{0, 1}, {1, 3}, {0, 4}}; const I* q = pr[choose(3)]; g = renumbered(g, choose(2) + 1, q[0], q[1]); M3 b; mk(b, g, pos, 0); b.initializeCenters(); m = b; }
    else if (ch == 12) { Geo3 h = g; for (auto& l : h.cf) std::reverse(l.begin() + 1, l.end()); M3 b; mk(b, h, pos, 0); b.initializeCenters(); m = b; } // only the order of the faces of a cell
    else { for (I c = 0; c < m.getCells().size(); c++) m.getCells()[c].setBoundaryElementIndex(g.cf[c][choose(3)]); } // cells begun elsewhere
    VTKMeshWriter<3, IDX, double> f; Vtk a = parseVtk(write3(w, m, t)), b = parseVtk(write3(f, m, t));
    auto same = [](Vtk& a, Vtk& b) { ASSERT(a.p.size() == b.p.size() && a.c == b.c && a.t == b.t, "a reused writer writes the changed mesh like a fresh one"); if (a.p.size() == b.p.size()) for (size_t i = 0; i < a.p.size(); i++) for (int k = 0; k < 3; k++) sx_assert_close(a.p[i][k], b.p[i][k], "a reused writer writes the changed points"); };
    same(a, b); ASSERT(w.getNumberOfCells() == f.getNumberOfCells() && w.backwardCellIndexMapping == f.backwardCellIndexMapping, "a reused writer writes the changed mesh like a fresh one");
    for (size_t c = 0; c < g.cf.size() && check && std::find(tv.begin(), tv.end(), T3::POLYHEDRON) == tv.end(); c++) checkCell(g, pos, c, tv[c], a.t.at(c), a.c.at(c));
    // and the first mesh once more
    a = parseVtk(write3(w, m0, t0)); same(a, before); ASSERT(w.backwardCellIndexMapping == back0, "a reused writer writes the changed mesh like a fresh one");
    sx_reach("end");
#elif CASE == 2 // polygons
    Geo2 g = geoFlat(); auto pos = place(g, frame<2>(SYM)); int v = choose(4); M2 m; mk(m, g, pos, v); if (choose(2)) m.setupBoundaryCells(); TypesOf<2>::type t(m); std::vector<int> tv{T2::QUAD, choose(2) ? T2::QUAD : T2::POLYGON, T2::TRIANGLE}; for (I c = 0; c < 3; c++) t.getDataByPos<0>()[c] = (T2::ElementType)tv[c];
    VTKMeshWriter<2, IDX, double> w; std::string txt = write2(w, m, t); Vtk k = parseVtk(txt); ASSERT(k.p.size() == pos.size() && k.c.size() == 3 && w.getNumberOfCells() == 3, "as many points and cells as in the mesh");
    auto check = [&](Vtk& k) { for (size_t i = 0; i < pos.size(); i++) { for (int d = 0; d < 2; d++) sx_assert_close(k.p.at(i)[d], pos[i][d], "written coordinates"); ASSERT(k.p[i][2] == 0, "third coordinate of a planar mesh"); }
        for (I c = 0; c < 3; c++) { ASSERT(srt(k.c.at(c)) == srt(g.fv[c]) && cycle(g, k.c[c], 0, k.c[c].size()), "a written polygon is the cycle of its vertices"); ASSERT(k.t.at(c) == (tv[c] == T2::QUAD ? 9 : tv[c] == T2::POLYGON ? 7 : 5), "VTK code of the cell type"); } };
    check(k); VTKMeshReader<2> r; M2 n; if (choose(2)) { mk(n, g, pos, 1); n.setupBoundaryCells(); sx_reach("reused"); } std::stringstream s(txt); r.loadFromStream(s, n); checkRead(n, g, pos); for (I c = 0; c < 3; c++) ASSERT(r.getCellTypes().getDataByPos<0>().at(c) == tv[c], "types of read cells");
    VTKMeshWriter<2, IDX, double> w2; k = parseVtk(write2(w2, n, r.getCellTypes())); check(k);
    // the first writer writes a changed mesh
    int ch = choose(4); if (ch == 0) { M2 b; mk(b, g, pos, (v + 1) % 4); m = b; } else if (ch == 1) { double d = symReal("d"); for (I i = 0; i < pos.size(); i++) { pos[i][1] = pos[i][1] + d; m.getVertices()[i][1] = pos[i][1]; } }
    else if (ch == 2) { tv = {T2::POLYGON, T2::POLYGON, T2::POLYGON}; for (I c = 0; c < 3; c++) t.getDataByPos<0>()[c] = T2::POLYGON; }
    else { Geo2 h = g; std::swap(h.fv[0], h.fv[1]); std::swap(h.cf[0], h.cf[1]); g = h; M2 b; mk(b, g, pos, v); m = b; if (tv[0] != tv[1]) { tv = {T2::POLYGON, T2::QUAD, T2::TRIANGLE}; t.getDataByPos<0>()[0] = T2::POLYGON; t.getDataByPos<0>()[1] = T2::QUAD; } }
    k = parseVtk(write2(w, m, t)); check(k); sx_reach("end");
#elif CASE == 3 // files a reader has to refuse
    Geo3 g = geoTets(); auto pos = place(g, triFrame(0)); M3 m; mk(m, g, pos, 0); m.initializeCenters(); VTKMeshWriter<3, IDX, double> w; std::string txt = write3(w, m, types3(m, typesOf(2)));
    Geo2 h = geoFlat(); auto ps2 = place(h, frame<2>(0x30)); M2 m2; mk(m2, h, ps2, 0); VTKMeshWriter<2, IDX, double> w2; TypesOf<2>::type t2(m2); t2.getDataByPos<0>()[0] = t2.getDataByPos<0>()[1] = t2.getDataByPos<0>()[2] = T2::POLYGON; std::string txt2 = write2(w2, m2, t2);
    bool flat = choose(2); std::string& x = flat ? txt2 : txt; int ch = choose(5); auto rep = [&](const char* a, const char* b) { size_t p = x.find(a); if (p != std::string::npos) x.replace(p, std::string(a).size(), b); };
    bool bad = true; if (ch == 0) rep("ASCII", "BINARY"); else if (ch == 1) rep("DATASET", "FIELD"); else if (ch == 2) rep("UNSTRUCTURED_GRID", "STRUCTURED_GRID"); else if (ch == 3) { size_t p = x.find("CELL_TYPES"); p = x.find('\n', p); int c = choose(6); x.replace(p + 1, x.find('\n', p + 1) - p - 1, c == 0 ? "1" : c == 1 ? "21" : c == 2 ? "15" : c == 3 ? (flat ? "10" : "9") : c == 4 ? (flat ? "12" : "5") : "42"); } else bad = false;
    bool threw = false; try { std::stringstream s(x); if (flat) { VTKMeshReader<2> r; M2 n; r.loadFromStream(s, n); if (!bad) checkRead(n, h, ps2); } else { VTKMeshReader<3> r; M3 n; r.loadFromStream(s, n); if (!bad) checkRead(n, g, pos); } } catch (std::runtime_error&) { threw = true; }
    ASSERT(threw == bad, "a file of another kind is refused and a correct one is not"); sx_reach("end");
#elif CASE == 4 // two tetrahedra in a file, sharing any of their corners in any order
    std::vector<Vertex<3, double>> pos; for (int i = 0; i < 7; i++) { Vertex<3, double> p; for (int k = 0; k < 3; k++) p[k] = symReal("x"); pos.push_back(p); }
    int share = choose(4); std::vector<I> a{0, 1, 2, 3}, b; for (int k = 0; k < 4; k++) { I x = k < share ? choose(4) : 4 + (k - share); for (I y : b) ASSUME(y != x); b.push_back(x); } int rot = choose(4); std::rotate(b.begin(), b.begin() + rot, b.end());
    std::stringstream s; s.precision(17); s << "# vtk DataFile Version 2.0\nany\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 7 double\n"; for (auto& p : pos) s << p[0] << ' ' << p[1] << ' ' << p[2] << '\n'; s << "\nCELLS 2 10\n"; for (auto& c : {a, b}) { s << 4; for (I x : c) s << ' ' << x; s << '\n'; } s << "\nCELL_TYPES 2\n10\n10\n";
    Geo3 g; g.p.resize(7); addTet(g, a[0], a[1], a[2], a[3]); addTet(g, b[0], b[1], b[2], b[3]); VTKMeshReader<3> r; M3 n; r.loadFromStream(s, n); checkRead(n, g, pos); sx_reach(share == 3 ? "shared" : "apart"); sx_reach("end");
#elif CASE == 5 // a mesh with hundreds of elements
    std::vector<int> kind; Geo3 g = geoGrid(NX, NY, NZ, WEDGES, &kind); auto pos = place(g, frame<3>(0xe00)); double sc = symReal("s", 0.5, 4); for (auto& p : pos) p[0] = p[0] * sc; int v = choose(2) ? 3 : 0; M3 m; mk(m, g, pos, v); if (v) m.setupBoundaryCells(); m.initializeCenters();
    std::vector<int> tv; for (int k : kind) tv.push_back(k == 4 ? T3::HEXAHEDRON : T3::WEDGE); auto t = types3(m, tv); VTKMeshWriter<3, IDX, double> w; std::string txt = write3(w, m, t); Vtk k = parseVtk(txt);
    ASSERT(k.p.size() == pos.size() && k.c.size() == g.cf.size() && w.getNumberOfCells() == g.cf.size(), "as many points and cells as in the mesh");
    for (size_t i = 0; i < pos.size(); i++) for (int d = 0; d < 3; d++) sx_assert_close(k.p.at(i)[d], pos[i][d], "written coordinates"); for (size_t c = 0; c < g.cf.size(); c++) checkCell(g, pos, c, tv[c], k.t.at(c), k.c.at(c));
    VTKMeshReader<3> r; M3 n; std::stringstream s(txt); r.loadFromStream(s, n); checkRead(n, g, pos); for (size_t c = 0; c < g.cf.size(); c++) ASSERT(r.getCellTypes().getDataByPos<0>().at(c) == tv[c], "types of read cells"); sx_reach("end");
#elif CASE == 6 // polygons, hundreds of them
    Geo2 g = geoGrid2(NX, NY); auto pos = place(g, frame<2>(0x30)); double sc = symReal("s", 0.5, 4); for (auto& p : pos) p[0] = p[0] * sc; int v = choose(2) ? 3 : 0; M2 m; mk(m, g, pos, v); if (v) m.setupBoundaryCells(); TypesOf<2>::type t(m, T2::QUAD);
    VTKMeshWriter<2, IDX, double> w; std::string txt = write2(w, m, t); Vtk k = parseVtk(txt); ASSERT(k.p.size() == pos.size() && k.c.size() == g.cf.size() && w.getNumberOfCells() == g.cf.size(), "as many points and cells as in the mesh");
    for (size_t i = 0; i < pos.size(); i++) for (int d = 0; d < 2; d++) sx_assert_close(k.p.at(i)[d], pos[i][d], "written coordinates"); for (size_t c = 0; c < g.cf.size(); c++) ASSERT(k.t.at(c) == 9 && srt(k.c.at(c)) == srt(g.fv[c]) && cycle(g, k.c[c], 0, k.c[c].size()), "a written polygon is the cycle of its vertices");
    VTKMeshReader<2> r; M2 n; std::stringstream s(txt); r.loadFromStream(s, n); checkRead(n, g, pos); sx_reach("end");
#elif CASE == 7 // few cells of a file of very many vertices
    auto head = [](std::stringstream& s) { s.precision(17); s << "# vtk DataFile Version 2.0\nany\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS " << MANY << " double\n"; };
    auto cells = [](std::stringstream& s, const std::vector<Vi>& l) { size_t t = 0; for (auto& c : l) t += c.size() + 1; s << "\nCELLS " << l.size() << ' ' << t << '\n'; for (auto& c : l) { s << c.size(); for (I x : c) s << ' ' << x; s << '\n'; } s << "\nCELL_TYPES " << l.size() << '\n'; };
    if (choose(2)) { auto l = confusableTets(); auto pos = manyPos<3>(); std::stringstream s; head(s); for (auto& p : pos) s << p[0] << ' ' << p[1] << ' ' << p[2] << '\n'; cells(s, l); for (size_t i = 0; i < l.size(); i++) s << "10\n";
        Geo3 g; g.p.resize(MANY); for (auto& c : l) addTet(g, c[0], c[1], c[2], c[3]); VTKMeshReader<3> r; M3 n; r.loadFromStream(s, n); checkRead(n, g, pos); sx_reach("solid"); }
    else { auto l = confusablePolygons(); auto pos = manyPos<2>(); std::stringstream s; head(s); for (auto& p : pos) s << p[0] << ' ' << p[1] << " 0\n"; cells(s, l); for (auto& c : l) s << (c.size() == 3 ? 5 : 7) << '\n';
        Geo2 g; g.p.resize(MANY); for (auto& c : l) addPolygon(g, c); VTKMeshReader<2> r; M2 n; r.loadFromStream(s, n); checkRead(n, g, pos); for (size_t c = 0; c < l.size(); c++) ASSERT(r.getCellTypes().getDataByPos<0>().at(c) == (l[c].size() == 3 ? T2::TRIANGLE : T2::POLYGON), "types of read cells"); sx_reach("flat"); }
    sx_reach("end");
#elif CASE == 8 // one face of many begun elsewhere, the numbers of its edges such that sums weighted by powers of a base agree
    static const I base[7] = {10, 16, 31, 33, 37, 64, 100}; Geo3 g = geoGrid(3, 3, 2, false); auto pos = place(g, frame<3>(0xe00)); I B = base[choose(7)], fc = 18, to[4] = {1, 0, B, B + 1}; for (int k = 0; k < 4; k++) { I at = g.fe[fc][k]; if (at != to[k]) g = renumbered(g, 1, at, to[k]); }
    int r = 1 + choose(3); auto make = [&](M3& m, bool turned) { build(m, g, pos, [](I) { return false; }, [](I) { return false; }, [&](I f) { return f == fc && turned ? (I)r : (I)0; }); m.initializeCenters(); }; M3 m, q; make(m, false); make(q, true); TypesOf<3>::type t(m, T3::HEXAHEDRON);
    VTKMeshWriter<3, IDX, double> w, x; write3(w, m, t); Vtk a = parseVtk(write3(w, q, t)), b = parseVtk(write3(x, q, t)); ASSERT(a.c == b.c && a.t == b.t && w.backwardCellIndexMapping == x.backwardCellIndexMapping, "a reused writer writes the changed mesh like a fresh one"); for (size_t i = 0; i < b.p.size(); i++) for (int k = 0; k < 3; k++) sx_assert_close(a.p.at(i)[k], b.p[i][k], "a reused writer writes the changed points");
    FPMAMeshWriter<3, IDX, double> fw, fx; auto fpma = [](FPMAMeshWriter<3, IDX, double>& w, M3& m) { std::stringstream s; s.precision(17); w.writeToStream(s, m); std::vector<I> r; I n = 0; s >> n; double d; for (I i = 0; i < 3 * n; i++) s >> d; while (s >> n) r.push_back(n); return r; }; fpma(fw, m); ASSERT(fpma(fw, q) == fpma(fx, q), "a reused writer writes the changed mesh like a fresh one"); sx_reach("end");
#endif
}
