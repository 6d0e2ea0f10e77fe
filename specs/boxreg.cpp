// C30: nearest point of a box
#include <algorithm>
#include <rofl/geometry/box_registration.h>
#include "va.h"
#define ENTRY extern "C" __attribute__((used)) void
static const double DIMS[][3] = {{2, 3, 4}, {4, 2.5, 1}, {3, 1, 6}, {2, 2, 2}, {5, 0.5, 0.5}};
template <typename S, int D>
static void nearest() {
    const double* fix = D == 3 ? DIMS[va_choice(va_tier() ? 5 : 2)] : nullptr;
    rofl::BoxRegistration<S, D> b;
    typename rofl::BoxRegistration<S, D>::Point dim, q, n;
    double h[D], x[D];
    for (int d = 0; d < D; d++) {
        dim(d) = fix ? fix[d] : va_real(0.5, 8);
        q(d) = va_real(-10, 10);
        h[d] = 0.5 * dim(d);
        x[d] = q(d);
    }
    b.setDimension(dim);
    b.associate(q, n);
    bool inside = true;
    for (int d = 0; d < D; d++)
        if (x[d] < -h[d] || x[d] > h[d]) inside = false;
    if (!inside) {
        for (int d = 0; d < D; d++) {
            double e = x[d] < -h[d] ? -h[d] : x[d] > h[d] ? h[d] : x[d];
            va_near(n(d), e, 1e-5, "the nearest point to a point outside is its clamping to the box");
        }
        va_reach("outside");
        return;
    }
    // inside: one coordinate moves, to a face, and no face is nearer
    double least = 100;
    for (int d = 0; d < D; d++) {
        double m = h[d] - (x[d] < 0 ? -x[d] : x[d]);
        if (m < least) least = m;
    }
    int on = 0;
    double moved = 0;
    for (int d = 0; d < D; d++) {
        double y = n(d), g = y - x[d] < 0 ? x[d] - y : y - x[d];
        if (y == h[d] || y == -h[d]) on++;
        if (y != x[d]) moved += g;
    }
    va_assert(on >= 1, "the nearest point to a point inside lies on a face");
    va_near(moved, least, 1e-5, "no face is nearer than the nearest point to a point inside");
    va_reach("inside");
}
ENTRY spec_2d() { nearest<double, 2>(); }
ENTRY spec_2f() { nearest<float, 2>(); }
ENTRY spec_3d() { nearest<double, 3>(); }
ENTRY spec_3f() { nearest<float, 3>(); }
// far away, and on very flat or very long boxes
ENTRY spec_far() {
    typedef rofl::BoxRegistration<double, 2> B;
    B b;
    B::Point dim(va_choice(2) ? 1e-3 : 2.0, 3), q, n;
    static const double X[] = {-1e9, -1e6, -5e3, 5e3, 1e6, 1e9};
    int k = va_choice(7), s = va_choice(2);
    double far = k < 6 ? X[k] : va_real(1e4, 1e5);
    q(s) = far;
    q(1 - s) = va_real(-3, 3);
    b.setDimension(dim);
    b.associate(q, n);
    for (int d = 0; d < 2; d++) {
        double h = 0.5 * dim(d), x = q(d);
        va_near(n(d), x < -h ? -h : x > h ? h : x, 1e-6, "the nearest point to a point far away is its clamping to the box");
    }
    va_reach("far");
}
ENTRY spec_init() {
    rofl::BoxRegistration<double, 3> b;
    typename rofl::BoxRegistration<double, 3>::Point dim(va_real(1, 2), 3, 4);
    b.setDimension(dim);
    rofl::BoxRegistration<double, 3>::VectorPoint c;
    if (va_choice(2)) c.push_back(rofl::BoxRegistration<double, 3>::Point(va_real(-5, 5), va_real(-5, 5), 1));
    rofl::BoxRegistration<double, 3>::Transform t;
    for (int i = 0; i < 16; i++) t.matrix()(i / 4, i % 4) = 0.1 * i;
    b.estimateInitTranform(c, t);
    for (int i = 0; i < 16; i++) va_near(t.matrix()(i / 4, i % 4), i / 4 == i % 4, 1e-9, "without two points the first estimate is the identity");
    va_reach("too few points");
}
static const double ROT[][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1}, {0.36, 0.48, -0.8, -0.8, 0.6, 0, 0.48, 0.64, 0.6}, {-1, 0, 0, 0, 0, 1, 0, 1, 0}, {-0.6, 0, -0.8, 0, 1, 0, 0.8, 0, -0.6}};
// a small turn about each axis, and half turns
static const double TURN[][9] = {{0.99995, -0.0099998, 0, 0.0099998, 0.99995, 0, 0, 0, 1}, {-1, 0, 0, 0, -1, 0, 0, 0, 1}, {1, 0, 0, 0, -1, 0, 0, 0, -1}, {-1, 0, 0, 0, 1, 0, 0, 0, -1},
                                 {1, 0, 0, 0, 0.99995, -0.0099998, 0, 0.0099998, 0.99995}, {0.99995, 0, 0.0099998, 0, 1, 0, -0.0099998, 0, 0.99995}, {0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1}};
template <typename S, int D>
struct Step {
    typedef rofl::BoxRegistration<S, D> B;
    typedef typename B::Point Point;
    typedef typename B::Transform T;
    B b;
    Point dim;
    T t;
    typename B::VectorPoint c;
    // a cloud on the faces of a box placed somewhere; face 3: on several faces
    void make(int rot, int face, int num = 6) {
        for (int i = 0; i < D; i++) dim(i) = 2 + i;
        b.setDimension(dim);
        t = T::Identity();
        for (int i = 0; i < D; i++) {
            for (int j = 0; j < D; j++) t.linear()(i, j) = ROT[rot][i * 3 + j];
            t.translation()(i) = va_real(-5, 5);
        }
        for (int i = 0; i < num; i++) {
            double q[3] = {0.3 * (i % 6) - 0.7 + i / 6 * 0.013, i % 2 ? 0.9 : -1.1 + 0.1 * (i % 6), i % 3 * 0.8 - 1};
            int a = face == 3 ? i % D : face;
            q[a] = (i >= 4 && face == 3 ? -0.5 : 0.5) * dim(a);
            Point p;
            for (int k = 0; k < D; k++) p(k) = q[k];
            c.push_back(t * p);
        }
    }
    void fixed(int rot, int face) {
        make(rot, face);
        T u = t;
        b.computeTransform(c, u);
        for (int i = 0; i <= D; i++)
            for (int j = 0; j <= D; j++) va_near(u.matrix()(i, j), t.matrix()(i, j), 1e-4, "a cloud on the box already leaves its placement");
        va_reach("placement kept");
    }
    // from another placement: the best rigid motion for the points associated
    void best(int rot, int face, int turn, int num = 6) {
        make(rot, face, num);
        T u = t;
        for (int i = 0; i < D; i++) {
            for (int j = 0; j < D; j++) {
                double s = 0;
                for (int k = 0; k < D; k++) s += ROT[rot][i * 3 + k] * TURN[turn][k * 3 + j];
                u.linear()(i, j) = s;
            }
            u.translation()(i) += 0.1 + 0.05 * i;
        }
        double m[64][3], mc[3] = {0, 0, 0}, cc[3] = {0, 0, 0}, x[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, rx[3][3];
        int n = (int)c.size();
        for (int i = 0; i < n; i++) {
            Point q, a;
            for (int k = 0; k < D; k++) {
                q(k) = 0;
                for (int l = 0; l < D; l++) q(k) += u.linear()(l, k) * (c[i](l) - u.translation()(l));
            }
            b.associate(q, a);
            for (int k = 0; k < D; k++) {
                m[i][k] = a(k);
                mc[k] += m[i][k] / n;
                cc[k] += (double)c[i](k) / n;
            }
        }
        for (int i = 0; i < n; i++)
            for (int k = 0; k < D; k++)
                for (int l = 0; l < D; l++) x[k][l] += (m[i][k] - mc[k]) * (c[i](l) - cc[l]);
        b.computeTransform(c, u);
        double tr = 0;
        for (int i = 0; i < D; i++) {
            double e = u.translation()(i);
            for (int k = 0; k < D; k++) e += (double)u.linear()(i, k) * mc[k];
            va_near(e, cc[i], 1e-4, "the centre of the associated points comes to that of the cloud");
            for (int j = 0; j < D; j++) {
                double s = 0, o = 0;
                for (int k = 0; k < D; k++) s += (double)u.linear()(i, k) * x[k][j], o += (double)u.linear()(i, k) * u.linear()(j, k);
                rx[i][j] = s;
                va_near(o, i == j, 1e-4, "the step is a rigid motion");
            }
            tr += rx[i][i];
        }
        double det = D == 2 ? (double)u.linear()(0, 0) * u.linear()(1, 1) - (double)u.linear()(0, 1) * u.linear()(1, 0) : 0;
        if (D == 3)
            for (int i = 0; i < 3; i++)
                det += (double)u.linear()(0, i) * ((double)u.linear()(1 % D, (i + 1) % 3) * u.linear()(2 % D, (i + 2) % 3) - (double)u.linear()(1 % D, (i + 2) % 3) * u.linear()(2 % D, (i + 1) % 3));
        va_near(det, 1, 1e-4, "the step does not mirror");
        for (int i = 0; i < D; i++)
            for (int j = 0; j < i; j++) va_near(rx[i][j], rx[j][i], 2e-3, "no small rotation improves the step");
        for (int q = 0; q < 7; q++) {
            if (D == 2 && q > 1 && q < 6) continue;
            double s = 0;
            for (int i = 0; i < D; i++)
                for (int k = 0; k < D; k++) s += TURN[q][i * 3 + k] * rx[k][i];
            va_assert(s <= tr + 1e-3, "no rotation improves the step");
        }
        va_reach("best motion");
    }
};
ENTRY spec_fixed3() { Step<double, 3>().fixed(va_choice(5), va_choice(4)); }
ENTRY spec_fixed3f() { Step<float, 3>().fixed(va_choice(5), va_choice(4)); }
ENTRY spec_fixed2() { Step<double, 2>().fixed(va_choice(2), 3); }
ENTRY spec_fixed2f() { Step<float, 2>().fixed(va_choice(2), va_choice(2)); }
ENTRY spec_best3() { Step<double, 3>().best(va_choice(5), va_choice(4), va_choice(7)); }
ENTRY spec_best2() { Step<double, 2>().best(va_choice(2), va_choice(3) % 2 * 3, va_choice(2) * 6); }
ENTRY spec_best_many() { Step<double, 2>().best(va_choice(2), va_choice(3) % 2 * 3, va_choice(2) * 6, va_choice(2) ? 60 : 19); }
// first estimate: the axes of the box along those of the cloud of the same rank
template <typename S, int D>
static void first() {
    typedef rofl::BoxRegistration<S, D> B;
    B b;
    typename B::Point dim;
    static const int O[][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    const int* o = O[va_choice(D == 2 ? 2 : 6)];
    for (int i = 0; i < D; i++) dim(i) = 2 + 1.5 * o[i];
    b.setDimension(dim);
    const double* r = ROT[va_choice(D == 2 ? 2 : 5)];
    double tr[3];
    static const double AT[2][3] = {{1.25, -2.5, 0.75}, {-0.5, 3, -4.25}};
    int at = va_choice(3);
    for (int i = 0; i < D; i++) tr[i] = at < 2 ? AT[at][i] : va_real(-5, 5);
    typename B::VectorPoint c;
    for (int k = 0; k < (1 << D); k++) {
        typename B::Point p;
        for (int i = 0; i < D; i++) {
            double s = tr[i];
            for (int j = 0; j < D; j++) s += r[i * 3 + j] * (k >> j & 1 ? 0.5 : -0.5) * dim(j);
            p(i) = s;
        }
        c.push_back(p);
    }
    typename B::Transform t;
    for (int i = 0; i <= D; i++)
        for (int j = 0; j <= D; j++) t.matrix()(i, j) = 7;
    b.estimateInitTranform(c, t);
    double det = 0;
    for (int i = 0; i < D; i++) {
        va_near(t.translation()(i), tr[i], 1e-4, "the first estimate is centred on the cloud");
        for (int j = 0; j < D; j++) {
            double s = 0, q = 0;
            for (int k = 0; k < D; k++) s += r[k * 3 + j] * t.linear()(k, i), q += (double)t.linear()(k, i) * t.linear()(k, j);
            va_near(s * s, i == j, 1e-3, "the axes of the box are those of the cloud, in the order of their lengths");
            va_near(q, i == j, 1e-4, "the first estimate has orthonormal axes");
        }
        if (D == 3) det += (double)t.linear()(0, i) * ((double)t.linear()(1 % D, (i + 1) % 3) * t.linear()(2 % D, (i + 2) % 3) - (double)t.linear()(1 % D, (i + 2) % 3) * t.linear()(2 % D, (i + 1) % 3));
    }
    if (D == 2) det = (double)t.linear()(0, 0) * t.linear()(1, 1) - (double)t.linear()(0, 1) * t.linear()(1, 0);
    va_near(det, 1, 1e-3, "the first estimate does not mirror");
    va_near(t.matrix()(D, D), 1, 1e-6, "the first estimate is affine");
    va_near(t.matrix()(D, 0), 0, 1e-6, "the first estimate is affine");
    va_reach("first estimate");
}
// two points: there is a centre already
ENTRY spec_two() {
    typedef rofl::BoxRegistration<double, 3> B;
    B b;
    B::Point dim(2, 3, 4);
    b.setDimension(dim);
    B::VectorPoint c;
    double x = va_real(-5, 5), y = va_real(-5, 5);
    c.push_back(B::Point(x - 0.5, y, 1));
    c.push_back(B::Point(x + 0.5, y, 3));
    B::Transform t;
    b.estimateInitTranform(c, t);
    va_near(t.translation()(0), x, 1e-9, "the first estimate is centred on the cloud");
    va_near(t.translation()(1), y, 1e-9, "the first estimate is centred on the cloud");
    va_near(t.translation()(2), 2, 1e-9, "the first estimate is centred on the cloud");
    if (va_choice(2)) {  // fixed points: the axes too
        B::VectorPoint e;
        e.push_back(B::Point(-0.5, 0, 1));
        e.push_back(B::Point(0.5, 0, 3));
        b.estimateInitTranform(e, t);
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) {
                double q = 0;
                for (int k = 0; k < 3; k++) q += t.linear()(k, i) * t.linear()(k, j);
                va_near(q, i == j, 1e-4, "the first estimate has orthonormal axes");
            }
        // the long axis of the box is along the points
        double s = (t.linear()(0, 2) + 2 * t.linear()(2, 2)) / 2.23606797749979;
        va_near(s * s, 1, 1e-3, "the axes of the box are those of the cloud, in the order of their lengths");
    }
    va_reach("two points");
}
ENTRY spec_first3() { first<double, 3>(); }
ENTRY spec_first2() { first<double, 2>(); }
ENTRY spec_first2f() { first<float, 2>(); }
