// C17: fast trigonometry stays within its error bound of the real functions (reals).
#include <rofl/common/functions.h>
#include <cmath>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void

static const int PERIODS[] = {0, -1, 1, 7, -160, 1000};

// every angle of several whole turns, in pieces of one sixteenth of a turn
static double anyAngle(double& r) {
    int n = va_tier() ? 6 : 4;
    int p = PERIODS[va_choice(n)];
    int piece = va_choice(8);
    r = va_real(-M_PI + piece * (M_PI / 4), -M_PI + (piece + 1) * (M_PI / 4));
    return r + 2.0 * M_PI * p;
}

ENTRY spec_cossin() {
    double r, c = 7, s = 7;
    double x = anyAngle(r);
    fastCosSin(x, c, s);
    va_reach("fastCosSin returned");
    va_near(c, cos(r), 0.0012, "the fast cosine is within 0.0012 of the cosine");
    va_near(s, sin(r), 0.0012, "the fast sine is within 0.0012 of the sine");
}

// very many turns
ENTRY spec_turns() {
    double c = 7, s = 7, x = (double[]){2.5e10, -2.5e10, 1e11 + 0.3, -7e11, 12345678.9, -4.1e9, 3.3e10}[va_choice(7)];
    fastCosSin(x, c, s);
    va_near(c, cos(x), 0.0013, "the fast cosine after many turns");
    va_near(s, sin(x), 0.0013, "the fast sine after many turns");
}
ENTRY spec_cossinf() {
    double r;
    float c = 7, s = 7;
    double x = anyAngle(r);
    fastCosSinf((float)x, c, s);
    va_reach("fastCosSinf returned");
    va_near(c, cos(r), 0.0012, "the fast cosine is within 0.0012 of the cosine (float)");
    va_near(s, sin(r), 0.0012, "the fast sine is within 0.0012 of the sine (float)");
}

ENTRY spec_atan() {
    int piece = va_choice(8);
    double x = va_real(-1 + piece * 0.25, -0.75 + piece * 0.25);
    va_near(fastAtan(x), atan(x), 2e-5, "the fast arc tangent is within 2e-5 of the arc tangent");
    va_near(fastAtanf((float)x), atan(x), 2e-5, "the fast arc tangent is within 2e-5 of the arc tangent (float)");
}

// octant by octant: one coordinate is z times the other
template <class T>
static void octant(T (*f)(T, T)) {
    int swap = va_choice(2), sx = va_choice(2), sy = va_choice(2);
    double m = va_real(1e-3, 1e6), z = va_real(1e-3, 1);
    double px = swap ? m * z : m, py = swap ? m : m * z;
    double ref = swap ? M_PI_2 - atan(z) : atan(z);
    if (sx) ref = M_PI - ref;
    if (sy) ref = -ref;
    T th = f((T)(sx ? -px : px), (T)(sy ? -py : py));
    va_reach("fastAtan2 returned");
    va_near(th, ref, 2e-5, "the fast arc tangent of a point is within 2e-5 of its direction");
}
ENTRY spec_atan2() { octant<double>(&fastAtan2); }
ENTRY spec_atan2f() { octant<float>(&fastAtan2f); }

template <class T>
static void axes(T (*f)(T, T)) {
    T m = (T)va_real(1e-3, 1e6);
    va_near(f(m, 0), 0, 2e-5, "direction of the positive first axis");
    va_near(f(0, m), M_PI_2, 2e-5, "direction of the positive second axis");
    va_near(f(-m, 0), M_PI, 2e-5, "direction of the negative first axis");
    va_near(f(0, -m), -M_PI_2, 2e-5, "direction of the negative second axis");
    va_near(f(-m, (T)-0.0), -M_PI, 2e-5, "direction of the negative first axis from below");
    T o = f(0, 0);
    va_assert(o == 0, "the direction of the origin is a number, zero as for atan2");
}
ENTRY spec_axes() { axes<double>(&fastAtan2); }
ENTRY spec_axesf() { axes<float>(&fastAtan2f); }
