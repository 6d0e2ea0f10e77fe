// C21: PNEBI functions and their table (reals).
#include <rofl/common/functions.h>
#include <cmath>
#include <vector>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void

// 2 exp(-x) I_k(x) by the power series; enough terms for x <= 30
static double ref(int k, double x, int terms) {
    double h = 0.25 * x * x, term = 1, sum = 0;
    for (int i = 1; i <= k; i++) term = term * (0.5 * x / i);
    for (int m = 0; m < terms; m++) {
        sum = sum + term;
        term = term * h / ((m + 1.0) * (m + 1.0 + k));
    }
    return 2 * exp(-x) * sum;
}

ENTRY spec_order0_small() {
    int piece = va_choice(15), neg = va_choice(2);
    double x = va_real(piece * 0.25, (piece + 1) * 0.25);
    double v = evaluatePnebi0Polynom(neg ? -x : x);
    va_near(v, ref(0, x, 22), 5e-7, "order 0 is twice the exponentially scaled Bessel function");
}
ENTRY spec_order0_mid() {
    int piece = va_choice(21), neg = va_choice(2);
    double x = va_real(3.75 + piece * 1.25, 5 + piece * 1.25);
    double v = evaluatePnebi0Polynom(neg ? -x : x);
    va_near(v, ref(0, x, 75), 5e-7, "order 0 is twice the exponentially scaled Bessel function");
}
ENTRY spec_order0_large() {
    int piece = va_choice(6), neg = va_choice(2);
    static const double B[] = {30, 45, 70, 120, 220, 380, 600};
    double x = va_real(B[piece], B[piece + 1]);
    double v = evaluatePnebi0Polynom(neg ? -x : x);
    double u = 1 / x;
    double r = 2 / sqrt(2 * M_PI) * (1 + u * (0.125 + u * (9.0 / 128 + u * (225.0 / 3072 + u * (11025.0 / 98304))))) / sqrt(x);
    va_near(v, r, 5e-7, "order 0 is twice the exponentially scaled Bessel function");
}
// all orders, at points
ENTRY spec_vector() {
    int n = (int[]){0, 1, 2, 3, 5, 8}[va_choice(6)];
    double x = (double[]){0.0, 1e-7, 1e-3, 0.1, 0.5, 1, 2, 3.5, 3.75, 4, 6, 8, 10}[va_choice(13)];
    int neg = va_choice(2), pre = va_choice(2);
    std::vector<double> v;
    if (pre) v.assign(n + 1, 17.0);
    evaluatePnebiVector(n, neg ? -x : x, v);
    va_assert((int)v.size() == n + 1, "the vector holds orders 0 to n");
    for (int k = 0; k <= n; k++) va_near(v[k], ref(k, x, 50), 5e-6, "each order is twice the exponentially scaled Bessel function of that order");
}
// the values of one vector satisfy the recurrence of the Bessel functions at every argument
ENTRY spec_recurrence() {
    int n = 1 + va_choice(va_tier() ? 4 : 3);
    int piece = va_choice(6);
    double x = va_real(0.5 + 1.5 * piece, 2 + 1.5 * piece);
    std::vector<double> v;
    evaluatePnebiVector(n, x, v);
    va_reach("evaluatePnebiVector returned");
    va_near(v[0], evaluatePnebi0Polynom(x), 1e-9, "order 0 of the vector is the order 0 function");
    for (int k = 1; k < n; k++) va_near(v[k - 1] - v[k + 1], v[k] * (2.0 * k / x), 1e-6, "the orders satisfy the Bessel recurrence");
}
static void lutCheck(int n, double tol, double lo, double hi) {
    PnebiLUT lut(n, tol);
    va_assert(lut.getOrderMax() == n, "the table reports its maximum order");
    int neg = va_choice(2);
    double x = va_real(lo, hi);
    std::vector<double> y;
    lut.eval(neg ? -x : x, y);
    va_reach("table evaluated");
    va_assert((int)y.size() == n + 1, "evaluating all orders returns orders 0 to n");
    for (int k = 0; k <= n; k++) {
        double v = lut.eval(k, neg ? -x : x);
        va_near(v, y[k], 1e-9, "both evaluations of the table agree");
        va_near(v, ref(k, x, 45), tol, "the table is within its tolerance of the function");
    }
}
ENTRY spec_lut0() { lutCheck(0, 0.25, 0, 6); }
ENTRY spec_lut1() { lutCheck(1, 0.25, 0, 6); }
ENTRY spec_lut2() { lutCheck(2, 0.1, 0, 10); }
ENTRY spec_lut3() { lutCheck(3, 0.2, 0, 10); }
// beyond the last point the last value is kept
ENTRY spec_lutend() {
    PnebiLUT lut(2, 0.5);
    double x = va_real(1e300, 1e305);
    std::vector<double> y(3, 5.0);
    lut.eval(x, y);
    for (int k = 0; k <= 2; k++) {
        va_near(y[k], lut.eval(k, x), 1e-9, "both evaluations of the table agree beyond its end");
        va_assert(y[k] >= 0 && y[k] < 0.5, "beyond the end the table decays");
    }
}
// a table made again over a coarser one, with more orders; vectors of any size given
ENTRY spec_lutagain() {
    PnebiLUT lut(0, 1.0);
    if (va_choice(2)) lut.init(2, 0.1);
    else lut = PnebiLUT(2, 0.1);
    double x = va_real(0, 3);
    std::vector<double> y(va_choice(6), 9.0);
    y.shrink_to_fit();
    size_t n = y.size();
    lut.eval(x, y);
    va_assert(y.size() == (n < 3 ? 3 : n), "the vector is made large enough for every order");
    for (int k = 0; k <= 2; k++) {
        va_near(y[k], ref(k, x, 30), 0.1, "the table made again is within its tolerance");
        va_near(lut.eval(k, x), y[k], 1e-9, "both evaluations agree");
    }
    double z = va_real(1e300, 1e305);
    std::vector<double> e(va_choice(3), 9.0);
    lut.eval(z, e);
    va_assert(e.size() == 3, "every order is given beyond the end");
}
ENTRY spec_lutreinit() {
    PnebiLUT lut;
    std::vector<double> y;
    va_assert(lut.eval(0, 1.0) == 0, "an empty table evaluates to zero");
    lut.eval(1.0, y);
    lut.init(3, 0.5);
    lut.init(1, 0.2);
    va_assert(lut.getOrderMax() == 1, "a table initialised again has its new order");
    double x = va_real(0, 3);
    lut.eval(x, y);
    va_assert(y.size() == 2, "a table initialised again has only its new orders");
    for (int k = 0; k < 2; k++) va_near(y[k], ref(k, x, 30), 0.2, "a table initialised again has its new tolerance");
}
