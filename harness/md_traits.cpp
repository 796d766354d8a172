// Data containers of meshes as objects with traits: one attribute per mapped dimension, named "dim " and the dimension.
#include <cmath>
#include <limits>
#include "text.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerArithmeticTraits.h>
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/Debug/VariableExport.h>
static int U() { return (int)sx_i64("v", -100000, 100000); }
static double D() { double d = sx_f64("v"); ASSUME(d == d); return d; }
#if CASE == 2
static int V() { return (int)sx_i64("v", 0, 99999); }
#endif
#if CASE == 1
typedef MeshDataContainer<double, 2, 0, 12> M; static double val() { return D(); }
#else
typedef MeshDataContainer<int, 2, 0, 12, 105> M; static int val() { return
#if CASE == 2
 V();
#else
 U();
#endif
}
#endif
typedef Traits<M> T;
template<unsigned P> static void fill(M& m, int n) { m.getDataByPos<P>().clear(); for (int i = 0; i < n; i++) m.getDataByPos<P>().push_back(val()); }
template<class A, class B> static bool eq(const A& a, const B& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i]; return r; }
void sx_main() {
    M m; int n0 = choose(2), n1 = choose(3), n2 = choose(2); fill<0>(m, n0); fill<1>(m, n1); fill<2>(m, n2);
#if CASE != 1
    fill<3>(m, choose(2));
#endif
#if CASE == 0
    T t; ASSERT(T::size() == 4 && DefaultIOTraits<M>::size() == 4 && DefaultArithmeticTraits<M>::size() == 4, "one attribute per mapped dimension");
    ASSERT(std::string(t.getName<0>()) == "dim 2" && std::string(t.getName<1>()) == "dim 0" && std::string(t.getName<2>()) == "dim 12" && std::string(t.getName<3>()) == "dim 105", "attributes are named by their dimensions");
    { typedef MeshDataContainer<char, 7, 10, 11, 99, 100, 110, 999, 101> B; Traits<B> b; ASSERT(std::string(b.getName<0>()) == "dim 7" && std::string(b.getName<1>()) == "dim 10" && std::string(b.getName<2>()) == "dim 11" && std::string(b.getName<3>()) == "dim 99" && std::string(b.getName<4>()) == "dim 100" && std::string(b.getName<5>()) == "dim 110" && std::string(b.getName<6>()) == "dim 999" && std::string(b.getName<7>()) == "dim 101", "attributes are named by their dimensions"); }
    auto io = DefaultIOTraits<M>::getTraits(); auto ar = DefaultArithmeticTraits<M>::getTraits(); const M& c = m;
    ASSERT(std::string(io.getName<2>()) == "dim 12" && std::string(ar.getName<0>()) == "dim 2", "default traits have the names");
    ASSERT(&t.getAttr<0>(m) == &m.getDataByPos<0>() && &t.getAttr<1>(m) == &m.getDataByPos<1>() && &t.getAttr<2>(m) == &m.getDataByPos<2>() && &io.getAttr<3>(m) == &m.getDataByPos<3>(), "an attribute is the data of its dimension");
    ASSERT(&t.getValue<0>(c) == &c.getDataByPos<0>() && &t.getValue<1>(c) == &c.getDataByPos<1>() && &ar.getValue<2>(c) == &c.getDataByPos<2>() && &t.getValue<3>(c) == &c.getDataByPos<3>(), "a value is the data of its dimension");
    { M k = m; T::type<1> w; for (int i = 0; i < 2; i++) w.push_back(U()); t.setValue<1>(k, w); ASSERT(eq(k.getDataByPos<1>(), w), "a set attribute has the value"); ASSERT(eq(k.getDataByPos<0>(), m.getDataByPos<0>()) && eq(k.getDataByPos<2>(), m.getDataByPos<2>()) && eq(k.getDataByPos<3>(), m.getDataByPos<3>()), "setting an attribute leaves the others"); T::type<3> x; x.push_back(U()); io.setValue<3>(k, x); ASSERT(eq(k.getDataByPos<3>(), x) && eq(k.getDataByPos<1>(), w) && eq(k.getDataByPos<0>(), m.getDataByPos<0>()), "setting an attribute leaves the others"); ASSERT(&get<2>(k) == &k.getDataByPos<2>(), "attribute reached by its index"); }
#elif CASE == 1
    { M a = abs(m); const M& c = m; M b = abs(c); bool ok = true; auto cmp = [&](const auto& x, const auto& y, const auto& z) { ok &= x.size() == z.size() && y.size() == z.size(); for (size_t i = 0; ok && i < z.size(); i++) { ASSERT(x[i] == std::fabs(z[i]), "absolute values"); ASSERT(y[i] == std::fabs(z[i]), "absolute values"); } }; cmp(a.getDataByPos<0>(), b.getDataByPos<0>(), m.getDataByPos<0>()); cmp(a.getDataByPos<1>(), b.getDataByPos<1>(), m.getDataByPos<1>()); cmp(a.getDataByPos<2>(), b.getDataByPos<2>(), m.getDataByPos<2>()); ASSERT(ok, "absolute values"); }
    std::vector<double> l; for (double d : m.getDataByPos<0>()) l.push_back(d); for (double d : m.getDataByPos<1>()) l.push_back(d); for (double d : m.getDataByPos<2>()) l.push_back(d);
    if (l.empty()) { ASSERT(sum(m) == 0, "sum of nothing"); sx_reach("end"); return; }
    double x = max(m), n = min(m); bool i = false, j = false; for (double d : l) { ASSERT(x >= d, "the maximum is not less than any value"); ASSERT(n <= d, "the minimum is not greater than any value"); i |= x == d; j |= n == d; } ASSERT(i && j, "extremes are values of the container");
    { std::vector<std::vector<double>> v((size_t)choose(3)); v.push_back(l); v.resize(v.size() + (size_t)choose(2)); double x = max(v), n = min(v); bool i = false, j = false; for (double d : l) { ASSERT(x >= d, "the maximum is not less than any value"); ASSERT(n <= d, "the minimum is not greater than any value"); i |= x == d; j |= n == d; } ASSERT(i && j, "extremes are values of the lists"); }
    { std::vector<std::vector<int>> v((size_t)choose(2)); v.push_back({U(), U()}); v.resize(v.size() + (size_t)choose(2)); auto& q = v[v.size() - 1].empty() ? v[v.size() - 2] : v.back(); int a = q[0], b = q[1]; ASSERT(max(v) == (a > b ? a : b) && min(v) == (a < b ? a : b) && sum(v) == a + b, "extremes and sum of lists of integers"); }
#else
    auto rdAll = [&](Rd& r) { r.want('{'); bool first = true; auto one = [&](const char* n, const auto& v) { if (!first) r.want(','); first = false; if (r.ok && r.text() != n) r.fail(); r.want(':'); r.want('['); for (size_t i = 0; i < v.size(); i++) { if (i) r.want(','); int k = r.template num<int>(); if (k != v[i]) r.fail(); } r.want(']'); }; one("dim 2", m.getDataByPos<0>()); one("dim 0", m.getDataByPos<1>()); one("dim 12", m.getDataByPos<2>()); one("dim 105", m.getDataByPos<3>()); r.want('}'); };
    if (choose(2)) {
    std::ostringstream o; VariableExport::exportVariable(o, m); { Rd r(o.str()); rdAll(r); r.end(); ASSERT(r.ok, "data container"); }
    std::string p = captureStdout([&] { VariableExport::exportVariable(m); }); { Rd r(p); rdAll(r); r.end(); ASSERT(r.ok, "data container"); }
    sx_reach("data"); } else {
    struct Raw { unsigned char b[3]; }; unsigned char e = (unsigned char)(1 + choose(255)); Raw w{{e, (unsigned char)(e & 1), (unsigned char)(255 - e)}}; const char* h = "0123456789ABCDEF"; std::string q; for (int i = 0; i < 3; i++) { if (i) q += ' '; q += h[w.b[i] >> 4]; q += h[w.b[i] & 15]; } ASSERT(captureStdout([&] { VariableExport::exportVariable(w); }) == q, "bytes of another object"); sx_reach("bytes"); }
#endif
    sx_reach("end");
}
