// C37: planar primitives.
#include <rofl/geometry/base_geometry2.h>
#include <cmath>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void
static const double TURN = 6.28318530717958648;
static const double EPS = 1e-3;
static const int K[] = {0, 1, -1, 2, -3, 5};
ENTRY spec_normalize() {
    double a = va_real(-1000, 1000);
    Scalar r = normalizeAngle2Pi(a);
    va_assert(r >= 0, "a normalised angle is not negative");
    va_ge(K_2PI, r, 1e-6, "a normalised angle is at most a turn");
    int k = K[va_choice(6)];
    double t = va_real(EPS, TURN - EPS);
    va_near(normalizeAngle2Pi(t + k * TURN), t, 1e-4, "a normalised angle is the angle up to whole turns");
}
static void interval(bool pair) {
    double beg = va_real(-7, 7), w = va_real(EPS, TURN - EPS), t = va_real(EPS, TURN - EPS);
    va_assume(t > w + EPS || t < w - EPS);
    double end = beg + w + K[va_choice(4)] * TURN, a = beg + t + K[va_choice(4)] * TURN;
    bool in = pair ? insideAngleInterval((Scalar)a, AngleInterval(beg, end)) : insideAngleInterval((Scalar)a, (Scalar)beg, (Scalar)end);
    va_assert(in == (t < w), "an angle is in an interval exactly when it is met between the limits turning counter-clockwise");
    va_assert(insideAngleIntervalEq(a, beg, end) == (t < w), "also in the version with equality");
}
ENTRY spec_interval() { interval(false); }
ENTRY spec_interval_pair() { interval(true); }
// the limits: the first belongs to the interval, the second only in the version with equality
ENTRY spec_limits() {
    static const double B[] = {0, 1.5, -2, 3};
    static const double W[] = {0.5, 3, 1.25};
    double beg = B[va_choice(4)], end = beg + W[va_choice(3)];
    va_assert(insideAngleInterval((Scalar)beg, (Scalar)beg, (Scalar)end), "the first limit is inside");
    va_assert(insideAngleIntervalEq(beg, beg, end), "the first limit is inside with equality");
    va_assert(!insideAngleInterval((Scalar)end, (Scalar)beg, (Scalar)end), "the second limit is outside");
    va_assert(insideAngleIntervalEq(end, beg, end), "the second limit is inside with equality");
}
ENTRY spec_ccw() {
    double c[6];
    for (int i = 0; i < 6; i++) c[i] = va_real(-100, 100);
    Vector2 p(c[0], c[1]), q(c[2], c[3]), r(c[4], c[5]);
    double area2 = c[0] * c[3] - c[2] * c[1] + c[2] * c[5] - c[4] * c[3] + c[4] * c[1] - c[0] * c[5];
    va_near(ccw(p, q, r), area2, 1e-6, "twice the signed area of the triangle");
    va_near(ccw(q, r, p), area2, 1e-6, "unchanged by a rotation of the points");
    va_near(ccw(q, p, r), -area2, 1e-6, "negated by an exchange of two points");
    va_assert(ccw(Vector2(0, 0), Vector2(1, 0), Vector2(0, 1)) > 0, "counter-clockwise is positive");
}
ENTRY spec_pose() {
    double x = va_real(-50, 50), y = va_real(-50, 50), th = va_real(-10, 10), a = va_real(-50, 50), b = va_real(-50, 50);
    Transform2 t;
    if (va_choice(2)) {
        t = Transform2::Identity();
        t.pretranslate(Vector2(3, 4));
    }
    if (va_choice(2)) poseToIsometry2((Scalar)x, (Scalar)y, (Scalar)th, t);
    else poseToIsometry2(Vector3(x, y, th), t);
    Vector2 q = t * Vector2(a, b);
    double c = std::cos(th), s = std::sin(th);
    va_near(q(0), c * a - s * b + x, 1e-6, "a pose maps a point: rotated, then translated, in x");
    va_near(q(1), s * a + c * b + y, 1e-6, "a pose maps a point: rotated, then translated, in y");
    va_near(t.matrix()(2, 0), 0, 1e-9, "the last row of the transform");
    va_near(t.matrix()(2, 2), 1, 1e-9, "the last row of the transform");
}
