// C18 (default), C19 (-DFOURIER=1), C20 (-DLU=1): angles, Fourier series and bounds (reals).
#include <rofl/common/functions.h>
#include <cmath>
#include <vector>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void

#if FOURIER
static double series(const std::vector<double>& c, double th, int mul) {
    double v = 0;
    for (size_t k = 0; 2 * k + 1 < c.size(); k++) v = v + c[2 * k] * cos(mul * (double)k * th) + c[2 * k + 1] * sin(mul * (double)k * th);
    return v;
}
ENTRY spec_fourier() {
    int n = va_choice(va_tier() ? 7 : 5);
    std::vector<double> c;
    for (int i = 0; i < 2 * n; i++) c.push_back(va_real(-100, 100));
    std::vector<double> keep = c;
    double th = va_real(-50, 50);
    double v = evaluateFourier(c, th);
    va_reach("evaluateFourier returned");
    va_near(v, series(keep, th, 1), 1e-9, "the value is the sum of the harmonics 0 to n-1 weighted by the coefficients");
}
// any coefficients at particular angles, more terms
ENTRY spec_fourier_at() {
    int n = 1 + va_choice(va_tier() ? 12 : 8);
    std::vector<double> c;
    for (int i = 0; i < 2 * n; i++) c.push_back(va_real(-100, 100));
    static const double A[] = {0.0, M_PI / 6, -M_PI / 4, M_PI_2, -2.2, M_PI, 5.1};
    double th = A[va_choice(7)];
    double v = evaluateFourier(c, th);
    va_near(v, series(c, th, 1), 1e-7, "the value is the sum of the harmonics for every coefficient vector");
}
// many harmonics; an odd number of coefficients, the last of which has no partner and is left out
ENTRY spec_fourier_many() {
    int n = (int[]){40, 65, 130, 300}[va_choice(4)];
    std::vector<double> c;
    for (int i = 0; i < 2 * n; i++) c.push_back(((i * 37) % 23 - 11) * 0.25);
    double th = (double[]){0.7, -2.9, 11.3}[va_choice(3)];
    va_near(evaluateFourier(c, th), series(c, th, 1), 1e-7, "the value is the sum of the harmonics however many");
}
ENTRY spec_fourier_odd() {
    int n = va_choice(5);
    std::vector<double> c;
    for (int i = 0; i < 2 * n + 1; i++) c.push_back(va_real(-100, 100));
    c.shrink_to_fit();
    double th = (double[]){0.7, -2.9, 0}[va_choice(3)];
    va_near(evaluateFourier(c, th), series(c, th, 1), 1e-9, "a coefficient without partner is left out");
}
#elif LU
static double pieceLo, pieceHi;
ENTRY spec_lucos() {
    // a and b range over sixteenths of a turn; whole turns added to both; both orders of the end points
    int turns = (int[]){0, -1, 2, -3}[va_choice(va_tier() ? 4 : 3)];
    int pa = va_choice(8), pb = pa + va_choice(9);
    double u = va_real(pa * (M_PI / 4), (pa + 1) * (M_PI / 4));
    double v = va_real(pb * (M_PI / 4), (pb + 1) * (M_PI / 4));
    va_assume(u <= v);
    int sw = va_choice(2);
    double lo = -7, hi = 7;
    double a = u + 2 * M_PI * turns, b = v + 2 * M_PI * turns;
    findLUCos(sw ? b : a, sw ? a : b, lo, hi);
    va_reach("findLUCos returned");
    // independent: maximum 1 iff a multiple of a turn lies between, minimum -1 iff an odd half turn does
    bool top = u <= 0 || (u <= 2 * M_PI && 2 * M_PI <= v) || (u <= 4 * M_PI && 4 * M_PI <= v);
    bool bot = (u <= M_PI && M_PI <= v) || (u <= 3 * M_PI && 3 * M_PI <= v);
    if (top) va_near(hi, 1, 1e-6, "the upper bound is 1 when the interval holds a multiple of a turn");
    else {
        va_ge(hi, cos(u), 1e-9, "the upper bound is not below the cosine of an end point");
        va_ge(hi, cos(v), 1e-9, "the upper bound is not below the cosine of an end point");
        if (cos(u) >= cos(v)) va_near(hi, cos(u), 1e-6, "the upper bound is attained");
        else va_near(hi, cos(v), 1e-6, "the upper bound is attained");
    }
    if (bot) va_near(lo, -1, 1e-6, "the lower bound is -1 when the interval holds an odd multiple of half a turn");
    else {
        va_ge(cos(u), lo, 1e-9, "the lower bound is not above the cosine of an end point");
        va_ge(cos(v), lo, 1e-9, "the lower bound is not above the cosine of an end point");
        if (cos(u) >= cos(v)) va_near(lo, cos(v), 1e-6, "the lower bound is attained");
        else va_near(lo, cos(u), 1e-6, "the lower bound is attained");
    }
}
// largest value of cos over [a,b], a <= b
static double cosMax(double a, double b) {
    double k = ceil(a / (2 * M_PI));
    if (2 * M_PI * k <= b) return 1;
    return cos(a) > cos(b) ? cos(a) : cos(b);
}
// the bounds of a series enclose its value at every angle of the interval, harmonic by harmonic exactly
static void lufourier(int terms, int lo4, int hi4) {
    static const double CO[6][8] = {{0, 0, -1.5, 0, -2, 0, 0, -1}, {2, 0, 0, 0, 0, 1.25, -0.5, 0}, {1.5, -3, 0, 0, 0, 0, 0, 0}, {-2, 0, 1, 0.5, -0.25, 2, 1, 1}, {0, 0, -1, -1, 0, -3, 2, 0}, {1, 1, 0, 2, 1.5, -0.5, -1, 0.75}};
    const double* co = CO[va_choice(6)];
    std::vector<double> c(co, co + 2 * terms);
    double c0 = c[0] = va_real(-10, 10);
    std::vector<double> keep = c;
    double t0 = -3.1 + 0.7 * (lo4 + va_choice(hi4 - lo4)), w = (double[]){0, 0.05, 0.3, 1.1, 4}[va_choice(5)];
    bool sw = va_choice(2);
    double lo = 0, hi = 0;
    findLUFourier(c, sw ? t0 + w : t0, sw ? t0 : t0 + w, lo, hi);
    double t = va_real(t0, t0 + w);
    double v = keep[0], up = keep[0], dn = keep[0];
    for (int k = 1; k < terms; k++) {
        double a = keep[2 * k], b = keep[2 * k + 1];
        v = v + a * cos(2 * k * t) + b * sin(2 * k * t);
        double m = sqrt(a * a + b * b), p = atan2(b, a);
        up = up + m * cosMax(2 * k * t0 - p, 2 * k * (t0 + w) - p);
        dn = dn - m * cosMax(2 * k * t0 - p + M_PI, 2 * k * (t0 + w) - p + M_PI);
    }
    va_reach("findLUFourier returned");
    va_ge(v, lo, 1e-6, "the series is not below its lower bound");
    va_ge(hi, v, 1e-6, "the series is not above its upper bound");
    va_near(hi, up, 1e-6, "the upper bound adds up the largest value of each harmonic on the interval");
    va_near(lo, dn, 1e-6, "the lower bound adds up the smallest value of each harmonic on the interval");
}
// many harmonics, with a large one late
ENTRY spec_lufourier_many() {
    int terms = va_choice(2) ? 41 : 130, late = terms - 1 - va_choice(3);
    std::vector<double> c(2 * terms);
    for (int k = 1; k < terms; k++) c[2 * k] = 0.01 * (k % 7) - 0.02, c[2 * k + 1] = 0.013 * (k % 5) - 0.03;
    c[2 * late] = 2;
    c[2 * late + 1] = -1.5;
    c[0] = 3;
    c[1] = 0;
    std::vector<double> keep = c;
    double t0 = (double[]){-1.3, 0.2, 2.9}[va_choice(3)], w = (double[]){0, 0.004, 0.02, 1.1}[va_choice(4)];
    double lo = 0, hi = 0, up = keep[0], dn = keep[0];
    findLUFourier(c, t0, t0 + w, lo, hi);
    for (int k = 1; k < terms; k++) {
        double a = keep[2 * k], b = keep[2 * k + 1], m = sqrt(a * a + b * b), p = atan2(b, a);
        up = up + m * cosMax(2 * k * t0 - p, 2 * k * (t0 + w) - p);
        dn = dn - m * cosMax(2 * k * t0 - p + M_PI, 2 * k * (t0 + w) - p + M_PI);
    }
    va_near(hi, up, 1e-5, "the upper bound adds up the largest value of each harmonic on the interval");
    va_near(lo, dn, 1e-5, "the lower bound adds up the smallest value of each harmonic on the interval");
    va_reach("many harmonics");
}
ENTRY spec_lufourier1() { lufourier(1, 0, 3); }
ENTRY spec_lufourier2() { lufourier(2, 0, 9); }
ENTRY spec_lufourier3() { lufourier(3, 0, 9); }
ENTRY spec_lufourier4() { lufourier(4, va_tier() ? 0 : 3, va_tier() ? 9 : 6); }
#else
// every angle of several turns
ENTRY spec_norm360() {
    int p = (int[]){0, -1, 1, 6, -40}[va_choice(5)];
    double r = va_real(0, 2 * M_PI);
    va_assume(r < 2 * M_PI - 1e-9);
    va_assume(r > 1e-9);
    double v = normalize360(r + 2 * M_PI * p);
    va_reach("normalize360 returned");
    va_near(v, r, 1e-9, "normalize360 returns the congruent angle of the first turn");
}
ENTRY spec_norm180() {
    int p = (int[]){0, -1, 1, 6, -41}[va_choice(5)];
    double r = va_real(0, M_PI);
    va_assume(r < M_PI - 1e-9);
    va_assume(r > 1e-9);
    double v = normalize180(r + M_PI * p);
    va_reach("normalize180 returned");
    va_near(v, r, 1e-9, "normalize180 returns the angle of the first half turn congruent modulo half a turn");
}
ENTRY spec_range() {
    double x = va_real(-1e5, 1e5);
    double v = normalize360(x), w = normalize180(x);
    va_assert(v >= 0, "normalize360 is not negative");
    va_assert(v < 2 * M_PI + 1e-9, "normalize360 is below a turn");
    va_assert(w >= 0, "normalize180 is not negative");
    va_assert(w < M_PI + 1e-9, "normalize180 is below half a turn");
}
// very many turns
ENTRY spec_turns() {
    double x = (double[]){2.5e10, -2.5e10, 1.7e10 + 0.3, -2.1e10, 12345678.9, -4.1e9, 3.3e10}[va_choice(7)];
    double v = normalize360(x), w = normalize180(x);
    va_assert(v >= 0 && v < 2 * M_PI + 1e-9 && w >= 0 && w < M_PI + 1e-9, "normalised angles lie in their interval after many turns");
    va_near(cos(v), cos(x), 1e-2, "the normalised angle is congruent after many turns");
    va_near(sin(v), sin(x), 1e-2, "the normalised angle is congruent after many turns");
    va_near(cos(2 * w), cos(2 * x), 2e-2, "the angle normalised to half a turn is congruent after many turns");
    va_near(sin(2 * w), sin(2 * x), 2e-2, "the angle normalised to half a turn is congruent after many turns");
}
ENTRY spec_multiples() {
    int p = va_choice(7) - 3;
    double v = normalize360(2 * M_PI * p), w = normalize180(M_PI * p);
    va_assert(v < 1e-9 || v > 2 * M_PI - 1e-9, "a multiple of a turn is congruent to zero");
    va_assert(w < 1e-9 || w > M_PI - 1e-9, "a multiple of half a turn is congruent to zero");
    va_assert(v >= -1e-9 && w >= -1e-9, "normalised angles are not negative");
    if (p == 0) va_assert(v == 0 && w == 0, "zero stays zero");
}
#endif
