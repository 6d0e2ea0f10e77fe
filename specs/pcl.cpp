// C33: alignment of a point cloud with a plane
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
#include "va.h"
#define ENTRY extern "C" __attribute__((used)) void
extern "C" char __libc_single_threaded;
char __libc_single_threaded = 1;
namespace pcl {
namespace console {
void print(VERBOSITY_LEVEL, const char*, ...) {}
}  // namespace console
}  // namespace pcl
typedef rofl::PointCloudPlaneAligner<pcl::PointXYZ> A;
static const double N[][3] = {{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0, 1, 0}, {0.6, 0, 0.8}, {0.48, 0.6, 0.64}, {-0.48, -0.6, 0.64}, {0.8, -0.6, 0}, {-1, 0, 0}, {0, -0.8, -0.6}, {0.36, 0.48, -0.8}, {2. / 3, -2. / 3, 1. / 3}};
static void rigid(const A& a, const double* n) {
    auto& m = a.getTransform().matrix();
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            double s = 0;
            for (int k = 0; k < 3; k++) s += (double)m(i, k) * m(j, k);
            va_near(s, i == j, 1e-4, "the axes of the frame are orthonormal");
        }
        va_near(m(2, i), n[i], 1e-4, "the normal of the plane is the third axis");
        va_near(m(3, i), 0, 1e-6, "the transform is affine");
    }
    double det = 0;
    for (int i = 0; i < 3; i++) det += (double)m(0, i) * ((double)m(1, (i + 1) % 3) * m(2, (i + 2) % 3) - (double)m(1, (i + 2) % 3) * m(2, (i + 1) % 3));
    va_near(det, 1, 1e-4, "the frame is right-handed");
    va_near(m(3, 3), 1, 1e-6, "the transform is affine");
}
static rofl::Vector4 coeffs(const double* n, double d, double k) { return rofl::Vector4(k * n[0], k * n[1], k * n[2], k * d); }
// the sign of the coefficients is chosen so that the origin is on the side of the normal
ENTRY spec_sign() {
    A a;
    double c[4];
    for (int i = 0; i < 4; i++) c[i] = va_real(-5, 5);
    a.setPlaneCoeffs(rofl::Vector4(c[0], c[1], c[2], c[3]));
    double s = c[3] > 0 ? 1 : -1;
    for (int i = 0; i < 4; i++) va_near(a.getPlaneCoeffs()(i), s * c[i], 1e-6, "the plane is the one given, with the origin on the side of its normal");
    va_reach("signed");
}
// one point anywhere, one on the plane, one far from it
ENTRY spec_frame() {
    int w = va_choice(12);
    const double* n = N[w];
    double d = va_tier() || w % 4 == 0 ? va_real(0.1, 5) : 0.4 * w + 0.3, tol = 0.02;
    A a;
    a.setPlaneCoeffs(coeffs(n, d, (va_tier() ? va_choice(2) : w % 2) ? -1 : 1));
    if (va_tier() ? va_choice(2) : w / 2 % 2) a.setPlaneTol(tol = 0.3);
    A::PointCloudPtr c(new A::PointCloud);
    double p[3][3];
    // in the plane: -d n plus a vector orthogonal to n
    double u[3] = {n[1] - n[2], n[2] - n[0], n[0] - n[1]};
    int k = va_choice(3), num = 0;
    double sum[3] = {0, 0, 0};
    for (int i = 0; i < 3; i++) {
        p[0][i] = va_real(-5, 5);
        p[1][i] = -d * n[i] + 2 * u[i];
        p[2][i] = -(d + 1) * n[i] + u[i];
    }
    for (int j = 0; j < 3; j++) {
        if (k == 1 && j == 1) continue;
        c->points.push_back(pcl::PointXYZ(p[j][0], p[j][1], p[j][2]));
    }
    double h = p[0][0] * n[0] + p[0][1] * n[1] + p[0][2] * n[2] + d;
    va_assume(h > tol + 1e-3 || h < -tol - 1e-3 || (h < tol - 1e-3 && h > -tol + 1e-3));
    bool in0 = h < tol && h > -tol;
    for (int j = 0; j < 2; j++)
        if (j == 0 ? in0 : k != 1) {
            num++;
            for (int i = 0; i < 3; i++) sum[i] += p[j][i];
        }
    a.setInputCloud(c);
    a.compute();
    rigid(a, n);
    auto& m = a.getTransform().matrix();
    for (int i = 0; i < 2; i++) {
        double s = 0;
        for (int j = 0; j < 3; j++) s += (double)m(i, j) * (num ? sum[j] / num : 0);
        va_near(s + m(i, 3), 0, 1e-3, "the centre of the points on the plane is on the third axis");
    }
    va_near(m(2, 3), 0, 1e-3, "heights are distances along the normal");
    if (k == 2) {
        A::PointCloud out;
        a.transform(out);
        va_assert(out.points.size() == c->points.size(), "every point is transformed");
        for (size_t j = 0; j < out.points.size() && j < 3; j++) {
            float q[3] = {out.points[j].x, out.points[j].y, out.points[j].z};
            for (int i = 0; i < 3; i++) {
                double s = m(i, 3);
                for (int l = 0; l < 3; l++) s += (double)m(i, l) * p[j][l];
                va_near(q[i], s, 1e-3, "the transformed point is the transform of the point");
            }
        }
    }
    va_reach("aligned");
}
// coefficients that are not normalised, and the frame computed again for another plane
ENTRY spec_again() {
    A a;
    A::PointCloudPtr c(new A::PointCloud);
    double x = va_real(-3, 3), y = va_real(-3, 3);
    c->points.push_back(pcl::PointXYZ(x, y, -2));
    c->points.push_back(pcl::PointXYZ(x, 0.5, -2));
    a.setInputCloud(c);
    const double* n = N[va_choice(12)];
    a.setPlaneCoeffs(coeffs(n, 9, va_choice(2) ? 3 : 0.5));
    a.compute();
    rigid(a, n);
    auto& m = a.getTransform().matrix();
    for (int i = 0; i < 3; i++) va_near(m(i, 3), 0, 1e-5, "without points on the plane the frame has the origin of the cloud");
    a.setPlaneCoeffs(rofl::Vector4(0, 0, 1, 2));
    a.compute();
    rigid(a, N[0]);
    va_near(m(0, 0) * x + m(0, 1) * (y + 0.5) / 2 + m(0, 3), 0, 1e-4, "the centre of the points on the plane is on the third axis");
    va_near(m(1, 0) * x + m(1, 1) * (y + 0.5) / 2 + m(1, 3), 0, 1e-4, "the centre of the points on the plane is on the third axis");
    va_reach("computed again");
}
// many points on the plane and off it
ENTRY spec_many() {
    va_long(400000000);
    A a;
    A::PointCloudPtr c(new A::PointCloud);
    double x = va_real(-3, 3), mx = 0, my = 0;
    int n = va_choice(2) ? 1100 : 140, num = 0;
    for (int i = 0; i < n; i++) {
        double px = x + i * 0.01, py = (i * 7 % 31) * 0.1 - 1;
        bool in = i % 3 != 1;
        c->points.push_back(pcl::PointXYZ(px, py, in ? -2 : -2.7));
        if (in) num++, mx += px, my += py;
    }
    a.setInputCloud(c);
    a.setPlaneCoeffs(rofl::Vector4(0, 0, 1, 2));
    a.compute();
    rigid(a, N[0]);
    auto& m = a.getTransform().matrix();
    for (int i = 0; i < 2; i++) va_near(m(i, 0) * mx / num + m(i, 1) * my / num + m(i, 3), 0, 2e-2, "the centre of the points on the plane is on the third axis");
    A::PointCloud out;
    a.transform(out);
    va_assert(out.points.size() == (size_t)n, "every point is transformed");
    va_reach("many points");
}
