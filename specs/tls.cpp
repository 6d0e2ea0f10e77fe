// C32: scalar consensus by truncated least squares.
#include <vector>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <rofl/common/tls_scalar_consensus.h>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void
typedef std::vector<double> Vec;
// checks the estimate against every set of intervals that share a point right after some end point
static void judge(const Vec& v, const Vec& r, double x, const std::vector<bool>& in, double TOL = 1e-9) {
    int n = v.size();
    va_assert((int)in.size() == n, "one inlier mark per value");
    for (int i = 0; i < n; i++) {
        bool near = v[i] - x < r[i] && x - v[i] < r[i];
        va_assert(in[i] == near, "a value is an inlier exactly when it lies within its range of the estimate");
    }
    double hat[64], cost[64], best = 0;
    int m = 0;
    for (int e = 0; e < 2 * n; e++) {
        double p = e % 2 ? v[e / 2] + r[e / 2] : v[e / 2] - r[e / 2];
        double w = 0, wv = 0, c = 0;
        int k = 0;
        bool s[32];
        for (int i = 0; i < n; i++) {
            s[i] = v[i] - r[i] <= p && p < v[i] + r[i];
            if (s[i]) {
                double wi = r[i] < 1e-6 ? 1e12 : 1 / (r[i] * r[i]);
                w += wi;
                wv += wi * v[i];
                k++;
            } else
                c += r[i];
        }
        if (!k) continue;
        hat[m] = wv / w;
        for (int i = 0; i < n; i++)
            if (s[i]) c += (hat[m] - v[i]) * (hat[m] - v[i]);
        cost[m] = c;
        if (!m || c < best) best = c;
        m++;
    }
    bool ok = n == 0;
    for (int e = 0; e < m && !ok; e++) ok = cost[e] <= best + TOL && hat[e] - x <= TOL && x - hat[e] <= TOL;
    va_assert(ok, "the estimate is the weighted mean of a consensus set of least cost");
    va_reach("estimate judged");
}
static void runf(const Vec& v, const Vec& r) {
    std::vector<float> vf(v.begin(), v.end()), rf(r.begin(), r.end());
    float x = -12345;
    std::vector<bool> in;
    estimateTranslationTls<float>(vf, rf, x, in);
    judge(Vec(vf.begin(), vf.end()), Vec(rf.begin(), rf.end()), x, in, 1e-4);
}
static void run(const Vec& v, const Vec& r) {
    Vec v0 = v, r0 = r;
    double x = -12345;
    std::vector<bool> in;
    int stale = va_choice(2);
    if (stale) in.assign(v.size() + 2, true);
    estimateTranslationTls<double>(v, r, x, in);
    judge(v0, r0, x, in);
}
static const double W[] = {-3.1, -0.4, 0.2, 0.55, 1.7, 4.3, 2.05};
static const double R[] = {0.5, 1.3, 2.9, 0.07};
// distinct end points: intervals that only touch are on the border of the definition
static bool distinct(const Vec& v, const Vec& r) {
    for (size_t i = 0; i < 2 * v.size(); i++)
        for (size_t j = 0; j < i; j++) {
            double a = i % 2 ? v[i / 2] + r[i / 2] : v[i / 2] - r[i / 2], b = j % 2 ? v[j / 2] + r[j / 2] : v[j / 2] - r[j / 2];
            if (i / 2 != j / 2 && i % 2 != j % 2 && std::fabs(a - b) < 1e-6) return false;
        }
    return true;
}
static void grid(int n, int nv, int nr) {
    Vec v, r;
    for (int i = 0; i < n; i++) {
        v.push_back(W[va_choice(nv)]);
        r.push_back(R[va_choice(nr)]);
    }
    if (distinct(v, r)) run(v, r);
}
ENTRY spec_two() { grid(va_choice(3), 7, 4); }
ENTRY spec_three() { grid(3, va_tier() ? 7 : 5, 2); }
ENTRY spec_four() { grid(4, va_tier() ? 4 : 3, va_tier() ? 3 : 2); }
ENTRY spec_five() { grid(5, va_tier() ? 3 : 2, 2); }
// many values, in every position of the groups they form
ENTRY spec_many() {
    int n = 9 + va_choice(va_tier() ? 20 : 3) * (va_tier() ? 1 : 8), mul = va_choice(2) ? 5 : 7, at = va_choice(3);
    while (n % mul == 0) mul++;
    Vec v, r;
    for (int i = 0; i < n; i++) {
        int k = (i * mul + 3) % n;
        // a group around the place, the others far apart: below, above, or on both sides
        bool g = k % 3 != 0 || k < 4;
        double far = at == 0 ? 50 + 7 * k : at == 1 ? -50 - 7 * k : (k % 2 ? 50 + 7 * k : -50 - 7 * k);
        v.push_back(g ? 10 + 0.013 * k : far);
        r.push_back(g ? 0.6 + 0.0007 * k : 0.4);
    }
    run(v, r);
}
// values far from zero: sums of squares keep their small differences
ENTRY spec_offset() {
    double o = va_choice(2) ? 3000 : -20000;
    Vec v{o + 0.1, o + 0.2, o + 0.35, o + 3, o + 3.05, o + 3.12, o + 8}, r{0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5};
    double x = 0;
    std::vector<bool> in;
    estimateTranslationTls<double>(v, r, x, in);
    judge(v, r, x, in, 1e-5);
}
// costs that differ by little only
ENTRY spec_close() {
    double e = va_choice(2) ? 2e-5 : -2e-5;
    Vec v{0, 3000}, r{1000, 1000 + e};
    int q = va_choice(3);
    if (q == 1) v.push_back(-9000), r.push_back(500);
    if (q == 2) v = {0, 200, 90000, 90000 + (e > 0 ? 199.999996 : 200.000004)}, r = {30000, 30000, 30000, 30000};
    double x = 0;
    std::vector<bool> in;
    estimateTranslationTls<double>(v, r, x, in);
    judge(v, r, x, in, q == 2 ? 1e-4 : 1e-6);
}
// any values: one and two of them, with ranges of different size
ENTRY spec_any() {
    int n = 1 + va_choice(2);
    Vec v, r;
    for (int i = 0; i < n; i++) {
        v.push_back(va_real(-100, 100));
        r.push_back(R[va_choice(3)]);
    }
    if (n == 2) {
        double d = v[0] - v[1];
        va_assume(d > r[0] + r[1] + 1e-6 || d < r[0] + r[1] - 1e-6);
        va_assume(d > -r[0] - r[1] + 1e-6 || d < -r[0] - r[1] - 1e-6);
    }
    run(v, r);
}
// ranges that are small, and so small that they weigh no more than the limit
// (of one order: sums of weights of different orders lose the small ones to rounding)
ENTRY spec_small() {
    static const double S[2][3] = {{0.5, 0.05, 0.005}, {2e-6, 5e-7, 1e-8}};
    int g = va_choice(2);
    Vec v = g ? Vec{1.0, 1.0 + 1e-9, 1.0 - 2e-9} : Vec{1.0, 1.003, 0.998}, r;
    for (int i = 0; i < 3; i++) r.push_back(S[g][va_choice(3)]);
    double x = 0;
    std::vector<bool> in;
    estimateTranslationTls<double>(v, r, x, in);
    judge(v, r, x, in, 1e-11);
}
ENTRY spec_float() {
    Vec v, r;
    int n = 1 + va_choice(3);
    for (int i = 0; i < n; i++) {
        v.push_back(W[va_choice(4)]);
        r.push_back(R[va_choice(2)]);
    }
    if (distinct(v, r)) runf(v, r);
}
// a range of zero
ENTRY spec_zero() {
    Vec v{1.0, 1.0 + 0.5 * va_choice(3), -3.0}, r{0.0, 0.7, va_choice(2) ? 0.0 : 0.3};
    double x = 0;
    std::vector<bool> in;
    estimateTranslationTls<double>(v, r, x, in);
    for (int i = 0; i < 3; i++) va_assert(in[i] == (std::fabs(v[i] - x) < r[i]), "inliers with a range of zero");
}
ENTRY spec_sizes() {
    Vec v(va_choice(3), 1.0), r(va_choice(3), 0.5);
    double x = 0;
    std::vector<bool> in;
    va_exit_ok(v.size() != r.size());
    estimateTranslationTls<double>(v, r, x, in);
    va_assert(v.size() == r.size(), "as many ranges as values are required");
    va_assert(in.size() == v.size(), "one mark per value");
}
