// Gram-Schmidt: the results are orthogonal, span the same flag of subspaces and keep the volume.
#include "common.h"
#include <GTMesh/NumericStaticArray/GramSchmidt.h>
#ifndef NV
#define NV 2
#define DIM 3
#define VARIANT 0
#endif
#ifndef FREE
#define FREE (NV*DIM)
#endif
typedef Vector<DIM, double> V;
static double dot(const V& a, const V& b) { double s = 0; for (unsigned i = 0; i < DIM; i++) s += a[i] * b[i]; return s; }
extern "C" void sx_main() {
    static const int fixedv[4][4] = {{1, 2, -2, 0}, {3, 3, 0, 1}, {2, -1, 1, 1}, {1, 1, 2, -3}};
    V v[NV]; int nf = 0; for (int i = 0; i < NV; i++) for (int j = 0; j < DIM; j++) { 
#ifdef SPARSE
        bool sym = (SPARSE >> (i * DIM + j)) & 1;
#else
        bool sym = nf < FREE;
#endif
        v[i][j] = sym ? symReal("v", -3, 3) : fixedv[i][j]; nf++; }
    ASSUME(dot(v[0], v[0]) > 0);
#if NV == 2
    ASSUME(dot(v[0], v[0]) * dot(v[1], v[1]) - dot(v[0], v[1]) * dot(v[0], v[1]) > 0);
#endif
#if NV == 3
    double a = dot(v[0], v[0]), b = dot(v[0], v[1]), c = dot(v[0], v[2]), d = dot(v[1], v[1]), e = dot(v[1], v[2]), f = dot(v[2], v[2]);
    ASSUME(a * d - b * b > 0); ASSUME(a * (d * f - e * e) - b * (b * f - e * c) + c * (b * e - d * c) > 0);
#endif
#if NV == 4 // only the last vector is symbolic: independent iff the determinant is not 0
    double m[4][4]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[i][j] = v[i][j];
    double det = 0; for (int j = 0; j < 4; j++) { int c[3], q = 0; for (int k = 0; k < 4; k++) if (k != j) c[q++] = k; double mi = m[0][c[0]] * (m[1][c[1]] * m[2][c[2]] - m[1][c[2]] * m[2][c[1]]) - m[0][c[1]] * (m[1][c[0]] * m[2][c[2]] - m[1][c[2]] * m[2][c[0]]) + m[0][c[2]] * (m[1][c[0]] * m[2][c[1]] - m[1][c[1]] * m[2][c[0]]); det += (j % 2 ? 1 : -1) * m[3][j] * mi; }
    ASSUME(det != 0);
#endif
#if VARIANT == 0 || VARIANT == 2
    std::array<V, NV> w; for (int i = 0; i < NV; i++) w[i] = v[i]; std::array<double, NV> n;
#else
    std::vector<V> w(v, v + NV); std::vector<double> n((size_t)choose(NV + 2), 5.0);
#endif
#if VARIANT == 0
    gramSchmidt<NV, DIM, size_t, double>(w);
#elif VARIANT == 1
    gramSchmidt<DIM, size_t, double>(w);
#elif VARIANT == 2
    gramSchmidt<NV, DIM, size_t, double>(w, n);
#else
    gramSchmidt<DIM, size_t, double>(w, n); ASSERT(n.size() == NV, "one norm per vector");
#endif
    ASSERT(w.size() == NV, "the number of vectors is kept");
#if VARIANT < 2
    for (int j = 0; j < DIM; j++) sx_assert_close(w[0][j], v[0][j], "the first vector is kept");
    for (int i = 0; i < NV; i++) for (int j = 0; j < i; j++) sx_assert_close(dot(w[i], w[j]), 0, "the results are mutually orthogonal");
    // w_i is v_i minus a combination of the previous results: its product with v_i is its own square
    for (int i = 0; i < NV; i++) sx_assert_close(dot(w[i], v[i]), dot(w[i], w[i]), "every result is v_i minus its projection");
#if NV == 2
    // the removed part lies along w_0
    V r; for (int j = 0; j < DIM; j++) r[j] = v[1][j] - w[1][j]; for (int j = 0; j < DIM; j++) for (int k = 0; k < j; k++) sx_assert_close(r[j] * w[0][k], r[k] * w[0][j], "the removed part is parallel to the first vector");
#endif
#else
    for (int i = 0; i < NV; i++) { ASSERT(n[i] > 0, "norms are positive"); sx_assert_close(dot(w[i], w[i]), 1, "results are unit vectors"); }
    sx_assert_close(n[0] * n[0], dot(v[0], v[0]), "the first norm is the length of the first vector");
    for (int j = 0; j < DIM; j++) sx_assert_close(w[0][j] * n[0], v[0][j], "the first result is the first vector normalised");
    for (int i = 0; i < NV; i++) for (int j = 0; j < i; j++) sx_assert_close(dot(w[i], w[j]), 0, "the results are mutually orthogonal");
    for (int i = 0; i < NV; i++) sx_assert_close(dot(w[i], v[i]), n[i], "the norm is the component of v_i along its own result");
#if NV == 2
    sx_assert_close(n[0] * n[0] * n[1] * n[1], dot(v[0], v[0]) * dot(v[1], v[1]) - dot(v[0], v[1]) * dot(v[0], v[1]), "the product of the norms is the volume");
#endif
#endif
    sx_reach("end");
}
