// Vertex/Vector: every operator is the componentwise operation of linear algebra.
#include "common.h"
#include <GTMesh/NumericStaticArray/Vector.h>
template<unsigned D, class R> static Vertex<D, R> sym(const char* n) { Vertex<D, R> v; for (unsigned i = 0; i < D; i++) v[i] = (R)symReal(n); return v; }
static void cl(double a, double b, const char* m) { sx_assert_close(a, b, m); }
static void cl(float a, float b, const char* m) { sx_assert_closef(a, b, m); }
template<unsigned D, class R> static void close(const Vertex<D, R>& a, const Vertex<D, R>& b, const char* m) { for (unsigned i = 0; i < D; i++) cl(a[i], b[i], m); }
template<unsigned D, class R> static void check() {
    Vertex<D, R> a = sym<D, R>("a"), b = sym<D, R>("b"), e; R k = (R)symReal("k");
    const Vertex<D, R> a0 = a, b0 = b;
    for (unsigned i = 0; i < D; i++) e[i] = a[i] + b[i];
    close(a + b, e, "a+b adds component by component"); { Vertex<D, R> c = a; Vertex<D, R>& r = (c += b); close(c, e, "a+=b equals a+b"); ASSERT(&r == &c, "a+=b returns a"); }
    for (unsigned i = 0; i < D; i++) e[i] = a[i] - b[i];
    close(a - b, e, "a-b subtracts component by component"); { Vertex<D, R> c = a; Vertex<D, R>& r = (c -= b); close(c, e, "a-=b equals a-b"); ASSERT(&r == &c, "a-=b returns a"); }
    for (unsigned i = 0; i < D; i++) e[i] = a[i] * k;
    close(a * k, e, "a*k scales every component"); close(k * a, e, "k*a equals a*k"); { Vertex<D, R> c = a; Vertex<D, R>& r = (c *= k); close(c, e, "a*=k equals a*k"); ASSERT(&r == &c, "a*=k returns a"); }
    ASSUME(k != 0); R d = k;
    for (unsigned i = 0; i < D; i++) e[i] = a[i] / d;
    close(a / d, e, "a/k divides every component"); { Vertex<D, R> c = a; Vertex<D, R>& r = (c /= d); close(c, e, "a/=k equals a/k"); ASSERT(&r == &c, "a/=k returns a"); }
    R s = 0; for (unsigned i = 0; i < D; i++) s += a[i] * b[i];
    cl(a * b, s, "a*b is the scalar product"); 
    R q = 0; for (unsigned i = 0; i < D; i++) q += a[i] * a[i];
    cl(a.sumOfSquares(), q, "sumOfSquares is a*a"); R n = a.normEuclid(); ASSERT(n >= 0, "the norm is not negative"); cl(n * n, q, "the norm squared is a*a");
    close(a, a0, "operands are left unchanged"); close(b, b0, "operands are left unchanged");
    bool eq = true; for (unsigned i = 0; i < D; i++) eq = eq && a[i] == b[i];
    ASSERT((a == b) == eq, "== compares every component"); ASSERT((a != b) == !eq, "!= negates =="); ASSERT(a == a0, "a vector equals itself");
    ASSERT(a.size() == D, "size is the dimension"); sx_reach("end");
}
template<class R> static void mixed() { // operands of another arithmetic type
    Vertex<3, R> a = sym<3, R>("m"), e; int k = (int)sx_pick(sx_i64("ki", -3, 3));
    for (unsigned i = 0; i < 3; i++) e[i] = a[i] * k;
    close(a * k, e, "a*k with an integer k"); { Vertex<3, R> c = a; c *= k; close(c, e, "a*=k with an integer k"); }
    ASSUME(k != 0); for (unsigned i = 0; i < 3; i++) e[i] = a[i] / k;
    close(a / k, e, "a/k with an integer k"); { Vertex<3, R> c = a; c /= k; close(c, e, "a/=k with an integer k"); }
    sx_reach("mixed");
}
static void cross() {
    Vector<3, double> a = sym<3, double>("a"), b = sym<3, double>("b"), c = vectorProduct(a, b);
    sx_assert_close(c[0], a[1] * b[2] - a[2] * b[1], "cross product, component 0"); sx_assert_close(c[1], a[2] * b[0] - a[0] * b[2], "cross product, component 1"); sx_assert_close(c[2], a[0] * b[1] - a[1] * b[0], "cross product, component 2");
    sx_assert_close(c * a, 0, "cross product is orthogonal to its first operand"); sx_assert_close(c * b, 0, "cross product is orthogonal to its second operand");
    Vector<3, double> d = vectorProduct(b, a); close(d, c * -1.0, "cross product is antisymmetric"); sx_reach("cross");
}
static void lists() { // construction from lists shorter and longer than the dimension
    double x = symReal("x"), y = symReal("y"), z = symReal("z"), w = symReal("w");
    Vertex<3, double> v = {x, y}; sx_assert_close(v[0], x, "list element 0"); sx_assert_close(v[1], y, "list element 1"); sx_assert_close(v[2], 0, "missing list elements are zero");
    Vertex<3, double> u = {x, y, z, w}; sx_assert_close(u[0], x, "list element 0"); sx_assert_close(u[1], y, "list element 1"); sx_assert_close(u[2], z, "list element 2");
    u = {w}; sx_assert_close(u[0], w, "assigned list element"); sx_assert_close(u[1], 0, "missing assigned elements are zero"); sx_assert_close(u[2], 0, "missing assigned elements are zero");
    Vertex<1, double> o = {z}; sx_assert_close(o[0], z, "one-dimensional list"); Vertex<4, double> p = {x, y, z, w}; sx_assert_close(p[3], w, "four-dimensional list"); Vertex<2, double> none = {}; sx_assert_close(none[0] * none[0] + none[1] * none[1], 0, "an empty list is the zero vector");
    Vertex<3, double> z0 = {x, y, z}; z0 = std::initializer_list<double>{}; for (int i = 0; i < 3; i++) sx_assert_close(z0[i], 0, "assignment of an empty list gives the zero vector"); const std::initializer_list<double> el{}; Vertex<2, double> z1(el); sx_assert_close(z1[0], 0, "construction from an empty list"); sx_assert_close(z1[1], 0, "construction from an empty list"); z1 = {y}; sx_assert_close(z1[0], y, "assigned list element"); sx_assert_close(z1[1], 0, "missing assigned elements are zero");
    sx_reach("lists");
}
extern "C" void sx_main() {
#ifdef FLOAT
    if (sx_pick(sx_i64("case", 0, 1))) check<3, float>(); else mixed<float>();
#else
    switch (sx_pick(sx_i64("case", 0, 6))) {
        case 0: check<1, double>(); break; case 1: check<2, double>(); break; case 2: check<3, double>(); break; case 3: check<4, double>(); break;
        case 4: mixed<double>(); break; case 5: cross(); break; case 6: lists(); break;
    }
#endif
}
