// C29: geographic conversions. The arithmetic is interpreted over the reals.
#include <rofl/geometry/gis.h>
#include <cmath>
#include "va.h"
using rofl::Scalar;
#define ENTRY extern "C" __attribute__((used)) void
static const double A = 6378137.0, E2 = 0.00669437999014, D = M_PI / 180.0;
static const double LAT[] = {0, 90, -90, 45, -30, 60, 12.5, -71.25, 89};
static const double LON[] = {0, 180, -180, 90, -45, 137.5};
// the surface point of the ellipsoid plus the altitude along its normal
ENTRY spec_ecef_lon() {
    double la = LAT[va_choice(9)], lo = va_real(-180, 180), al = va_real(-1000, 20000);
    Scalar x, y, z;
    rofl::convertLatLonAltToECEF(la, lo, al, x, y, z);
    double s = std::sin(la * D), c = std::cos(la * D), N = A / std::sqrt(1 - E2 * s * s);
    va_near(x, (N + al) * c * std::cos(lo * D), 2, "x of a point of the ellipsoid");
    va_near(y, (N + al) * c * std::sin(lo * D), 2, "y of a point of the ellipsoid");
    va_near(z, (N * (1 - E2) + al) * s, 2, "z of a point of the ellipsoid");
}
ENTRY spec_ecef_lat() {
    double la = va_real(-90, 90), lo = LON[va_choice(6)];
    Scalar x, y, z;
    rofl::convertLatLonAltToECEF(la, lo, 0, x, y, z);
    double s = std::sin(la * D), c = std::cos(la * D), N = A / std::sqrt(1 - E2 * s * s);
    va_near(x, N * c * std::cos(lo * D), 2, "x for every latitude");
    va_near(y, N * c * std::sin(lo * D), 2, "y for every latitude");
    va_near(z, N * (1 - E2) * s, 2, "z for every latitude");
}
// arc lengths of one degree on the ellipsoid
ENTRY spec_perdeg_lat() {
    double la = va_real(-90, 90);
    double s = std::sin(la * D), u = 1 - E2 * s * s;
    va_near(rofl::meterPerDegLat(la), D * A * (1 - E2) / (u * std::sqrt(u)), 10, "the length of a degree of latitude");
}
ENTRY spec_perdeg_lon() {
    double la = va_real(-90, 90);
    double s = std::sin(la * D), c = std::cos(la * D), u = 1 - E2 * s * s;
    va_near(rofl::meterPerDegLon(la), D * A * c / std::sqrt(u), 10, "the length of a degree of longitude at a latitude");
}
// local coordinates: metres east and north of the origin
ENTRY spec_local() {
    double la0 = LAT[va_choice(9)], lo0 = LON[va_choice(6)], dla = va_real(-1, 1), dlo = va_real(-1, 1);
    Scalar x, y;
    rofl::convertLatLonToLocalXY(la0, lo0, la0 + dla, lo0 + dlo, x, y);
    double s = std::sin(la0 * D), c = std::cos(la0 * D), u = 1 - E2 * s * s;
    va_near(x, dlo * D * A * c / std::sqrt(u), 10, "x is the distance east of the origin");
    va_near(y, dla * D * A * (1 - E2) / (u * std::sqrt(u)), 10, "y is the distance north of the origin");
}
ENTRY spec_back() {
    double la0 = LAT[3 + va_choice(5)], lo0 = LON[va_choice(6)], la = va_real(-80, 80), lo = va_real(-180, 180);
    Scalar x, y, la1, lo1;
    rofl::convertLatLonToLocalXY(la0, lo0, la, lo, x, y);
    rofl::convertLocalXYToLatLon(la0, lo0, x, y, la1, lo1);
    va_near(la1, la, 1e-6, "the latitude of a converted point");
    va_near(lo1, lo, 1e-6, "the longitude of a converted point");
}
ENTRY spec_back_xy() {
    double la0 = LAT[3 + va_choice(5)], lo0 = LON[va_choice(6)], x = va_real(-1e5, 1e5), y = va_real(-1e5, 1e5);
    Scalar x1, y1, la, lo;
    rofl::convertLocalXYToLatLon(la0, lo0, x, y, la, lo);
    rofl::convertLatLonToLocalXY(la0, lo0, la, lo, x1, y1);
    va_near(x1, x, 1e-3, "x of a point converted to degrees");
    va_near(y1, y, 1e-3, "y of a point converted to degrees");
}
// origins anywhere
ENTRY spec_back_org() {
    double la0 = va_real(-85, 85), lo0 = va_real(-180, 180), la = va_real(-80, 80), lo = va_real(-180, 180);
    Scalar x, y, la1, lo1;
    rofl::convertLatLonToLocalXY(la0, lo0, la, lo, x, y);
    rofl::convertLocalXYToLatLon(la0, lo0, x, y, la1, lo1);
    va_near(la1, la, 1e-6, "the latitude of a converted point, any origin");
    va_near(lo1, lo, 1e-6, "the longitude of a converted point, any origin");
}
// the published series (AlvinXY)
ENTRY spec_series() {
    double la = va_real(-90, 90), r = la * D;
    va_near(rofl::meterPerDegLat(la), 111132.09 - 566.05 * std::cos(2 * r) + 1.20 * std::cos(4 * r) - 0.002 * std::cos(6 * r), 0.02, "the series of a degree of latitude");
    va_near(rofl::meterPerDegLon(la), 111415.13 * std::cos(r) - 94.55 * std::cos(3 * r) + 0.12 * std::cos(5 * r), 0.02, "the series of a degree of longitude");
}
