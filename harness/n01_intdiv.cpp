#include "common.h"
#include <GTMesh/NumericStaticArray/Vector.h>
extern "C" void sx_main() {
    Vertex<2, int> a = {(int)sx_i64("a", -100, 100), (int)sx_i64("a", -100, 100)}; int k = (int)sx_pick(sx_i64("k", -4, 4)); ASSUME(k != 0);
    Vertex<2, int> q = a / k, r = a; r /= k;
    for (int i = 0; i < 2; i++) { ASSERT(q[i] == a[i] / k, "a/k of integers"); ASSERT(r[i] == a[i] / k, "a/=k of integers"); }
    static const double fk[5] = {0.5, 2.5, -0.25, 1e-3, 3}; double f = fk[sx_pick(sx_i64("f", 0, 4))]; float g = (float)f;
    Vertex<2, int> p = a * f, h = a * g, t = a; t *= f; Vertex<2, int> u = a / f, w = a; w /= f;
    for (int i = 0; i < 2; i++) { ASSERT(p[i] == (int)(a[i] * f), "integers times a fraction"); ASSERT(h[i] == (int)(a[i] * g), "integers times a fraction"); ASSERT(t[i] == (int)(a[i] * f), "integers times a fraction in place"); ASSERT(u[i] == (int)(a[i] / f), "integers over a fraction"); ASSERT(w[i] == (int)(a[i] / f), "integers over a fraction in place"); }
    Vertex<3, float> v = {sx_f32("v"), sx_f32("v"), sx_f32("v")}; ASSUME(v[0] == v[0] && v[1] == v[1] && v[2] == v[2]); double z = 1.0 / 3; Vertex<3, float> vz = v * z, vd = v / z, vm = v; vm *= z;
    for (int i = 0; i < 3; i++) { ASSERT(sx_samef(vz[i], (float)(v[i] * z)), "single precision times a double"); ASSERT(sx_samef(vm[i], (float)(v[i] * z)), "single precision times a double in place"); ASSERT(sx_samef(vd[i], (float)(v[i] / z)), "single precision over a double"); }
    sx_reach("end");
}
