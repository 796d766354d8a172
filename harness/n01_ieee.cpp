// The single-rounding operations on double vectors, bit for bit in IEEE-754.
#include "common.h"
#include <GTMesh/NumericStaticArray/Vector.h>
template<unsigned D> static void check() {
    Vertex<D, double> a, b; for (unsigned i = 0; i < D; i++) { a[i] = sx_f64("a"); b[i] = sx_f64("b"); } double k = sx_f64("k");
    Vertex<D, double> s = a + b, d = a - b, p = a * k, l = k * a;
    for (unsigned i = 0; i < D; i++) { ASSERT(sx_same(s[i], a[i] + b[i]), "a+b rounds once"); ASSERT(sx_same(d[i], a[i] - b[i]), "a-b rounds once"); ASSERT(sx_same(p[i], a[i] * k), "a*k rounds once"); ASSERT(sx_same(l[i], a[i] * k), "k*a rounds once"); }
    { auto c = a; c += b; for (unsigned i = 0; i < D; i++) ASSERT(sx_same(c[i], a[i] + b[i]), "a+=b rounds once"); } { auto c = a; c -= b; for (unsigned i = 0; i < D; i++) ASSERT(sx_same(c[i], a[i] - b[i]), "a-=b rounds once"); } { auto c = a; c *= k; for (unsigned i = 0; i < D; i++) ASSERT(sx_same(c[i], a[i] * k), "a*=k rounds once"); }
    Vertex<D, double> q = a / k; for (unsigned i = 0; i < D; i++) ASSERT(sx_same(q[i], a[i] / k), "a/k divides every component, also by zero and infinity"); { auto c = a; c /= k; for (unsigned i = 0; i < D; i++) ASSERT(sx_same(c[i], a[i] / k), "a/=k divides every component"); }
    bool eq = true; for (unsigned i = 0; i < D; i++) eq = eq & (a[i] == b[i]); ASSERT((a == b) == eq, "== follows IEEE equality of every component"); ASSERT((a != b) == !eq, "!= follows IEEE equality of every component");
    sx_reach("end");
}
extern "C" void sx_main() { if (sx_pick(sx_i64("case", 0, 1))) check<2>(); else check<3>(); }
