// Vectors of integers, bit-exact.
#include "common.h"
#include <GTMesh/NumericStaticArray/Vector.h>
template<unsigned D, class R, class U> static void check(long lo, long hi) {
    Vertex<D, R> a, b; for (unsigned i = 0; i < D; i++) { a[i] = (R)sx_i64("a", lo, hi); b[i] = (R)sx_i64("b", lo, hi); }
    R k = (R)sx_i64("k", lo, hi);
    Vertex<D, R> s = a + b, d = a - b, p = a * k; U dot = 0;
    for (unsigned i = 0; i < D; i++) { ASSERT(s[i] == (R)((U)a[i] + (U)b[i]), "a+b of integers"); ASSERT(d[i] == (R)((U)a[i] - (U)b[i]), "a-b of integers"); ASSERT(p[i] == (R)((U)a[i] * (U)k), "a*k of integers"); dot += (U)a[i] * (U)b[i]; }
    ASSERT((U)(a * b) == dot, "scalar product of integers is exact");
    bool eq = true; for (unsigned i = 0; i < D; i++) eq = eq && a[i] == b[i];
    ASSERT((a == b) == eq, "== of integers"); ASSERT((a != b) != eq, "!= of integers");
    sx_reach("end");
}
extern "C" void sx_main() {
    switch (sx_pick(sx_i64("case", 0, 4))) {
        case 0: check<1, int, unsigned>(-30000, 30000); break; case 1: check<2, int, unsigned>(-20000, 20000); break; case 2: check<3, int, unsigned>(-20000, 20000); break;
        case 3: check<2, long, unsigned long>(-1500000000L, 1500000000L); break; case 4: check<3, long, unsigned long>(-1000000000L, 1000000000L); break;
    }
}
