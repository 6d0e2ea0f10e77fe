// C35: VectorArray arithmetic.
#include <cstddef>
#include <rofl/common/vector_array.h>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void
template <typename T>
static T any();
template <>
double any<double>() { return va_real(-1000, 1000); }
template <>
int any<int>() { return (int)va_int(-10000, 10000); }
template <typename T, size_t D>
static void all() {
    typedef VectorArray<T, D> V;
    V a, b;
    for (size_t d = 0; d < D; d++) {
        a[d] = any<T>();
        b(d) = any<T>();
    }
    T k = any<T>();
    const V ca = a, cb(b);
    V sum = ca + cb, dif = ca - cb, sca = ca * k, mul = ca * cb;
    for (size_t d = 0; d < D; d++) {
        va_assert(a(d) == a[d] && ca(d) == a[d] && cb(d) == b[d], "the call operator accesses the component");
        va_assert(sum[d] == a[d] + b[d], "a sum adds component by component");
        va_assert(dif[d] == a[d] - b[d], "a difference subtracts component by component");
        va_near(sca[d], (double)(a[d] * k), 1e-9, "a scaled vector has every component scaled");
        va_near(mul[d], (double)(a[d] * b[d]), 1e-9, "a product multiplies component by component");
        va_assert(ca[d] == a[d] && cb[d] == b[d], "the operands are not changed");
    }
    V s2 = a, m2 = a, k2 = a;
    V& r1 = s2 += cb;
    V& r2 = m2 *= cb;
    V& r3 = k2 *= k;
    va_assert(&r1 == &s2 && &r2 == &m2 && &r3 == &k2, "an assigning operator returns its object");
    for (size_t d = 0; d < D; d++) {
        va_assert(s2[d] == a[d] + b[d], "adding in place");
        va_near(m2[d], (double)(a[d] * b[d]), 1e-9, "multiplying in place");
        va_near(k2[d], (double)(a[d] * k), 1e-9, "scaling in place");
    }
    V self = a;
    self += self;
    for (size_t d = 0; d < D; d++) va_assert(self[d] == a[d] + a[d], "adding a vector to itself");
    V sq = a;
    sq *= sq;
    for (size_t d = 0; d < D; d++) va_near(sq[d], (double)(a[d] * a[d]), 1e-9, "multiplying a vector by itself");
    V e;
    e = a;
    for (size_t d = 0; d < D; d++) va_assert(e[d] == a[d], "an assigned vector has the same components");
    va_assert(a.size() == D, "the size is the dimension");
}
template <size_t D>
static void quot() {
    typedef VectorArray<double, D> V;
    V a, b;
    for (size_t d = 0; d < D; d++) {
        a[d] = any<double>();
        b[d] = va_choice(2) ? va_real(0.5, 8) : va_real(-8, -0.5);
    }
    V q = a / b;
    for (size_t d = 0; d < D; d++) va_near(q[d], a[d] / b[d], 1e-9, "a quotient divides component by component");
}
ENTRY spec_d1() { all<double, 1>(); }
ENTRY spec_d2() { all<double, 2>(); }
ENTRY spec_d3() { all<double, 3>(); }
ENTRY spec_d6() { all<double, 6>(); }
ENTRY spec_i2() { all<int, 2>(); }
ENTRY spec_i3() { all<int, 3>(); }
ENTRY spec_quot() {
    quot<1>();
    quot<3>();
}
ENTRY spec_iquot() {
    VectorArray<int, 2> a, b;
    static const int A[] = {-7, 0, 9, 100}, B[] = {1, -2, 5};
    for (int d = 0; d < 2; d++) a[d] = A[va_choice(4)], b[d] = B[va_choice(3)];
    auto q = a / b;
    for (int d = 0; d < 2; d++) va_assert(q[d] == a[d] / b[d], "an integer quotient divides component by component");
}
