// C27: Hough plane detector. Model streams.
#include <rofl/geometry/hough_plane_detector.h>
#include <cmath>
#include <vector>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void
extern "C" __attribute__((used)) void va_clock_ticks() {}
typedef HoughPlaneDetector H;
static const double PI_ = 3.14159265358979323846;
static void indices(H& h, int t, int p, int r) {
    va_assert(h.getThetaNum() == t && h.getPhiNum() == p && h.getRhoNum() == r, "the numbers of bins are those given");
}
static void normals(H& h) {
    for (int t = 0; t < h.getThetaNum(); t++)
        for (int p = 0; p < h.getPhiNum(); p++) {
            double th = h.getThetaMin() + (double)h.getThetaRes() * t, ph = h.getPhiMin() + (double)h.getPhiRes() * p;
            const Vector3& n = h.getNormal(t, p);
            va_near(n(0), std::cos(th) * std::cos(ph), 1e-5, "x of the normal of a bin");
            va_near(n(1), std::cos(th) * std::sin(ph), 1e-5, "y of the normal of a bin");
            va_near(n(2), std::sin(th), 1e-5, "z of the normal of a bin");
            va_assert(&h.getNormal({t, p}) == &n, "both queries give the same normal");
        }
}
// votes: the points whose distance along the normal falls into the bin
static void votes(H& h, const VectorVector3& pts) {
    for (int t = 0; t < h.getThetaNum(); t++)
        for (int p = 0; p < h.getPhiNum(); p++) {
            const Vector3& n = h.getNormal(t, p);
            size_t hs = 0;
            bool sure = true;
            for (int r = 0; r < h.getRhoNum(); r++) {
                size_t c = 0;
                double lo = (double)h.getRhoMin() + (double)h.getRhoRes() * r, hi = lo + h.getRhoRes();
                for (auto& q : pts) {
                    double d = (double)n(0) * q(0) + (double)n(1) * q(1) + (double)n(2) * q(2);
                    if (std::fabs(d - lo) < 1e-4 || std::fabs(d - hi) < 1e-4) sure = false;
                    if (lo <= d && d < hi) c++;
                }
                if (!sure) break;
                va_assert(h.getHoughTransform(t, p, r) == c, "a bin counts the points whose distance along its normal it covers");
                va_assert(h.getHoughTransform({t, p, r}) == c, "both queries give the same count");
                hs += c * c;
            }
            if (sure) {
                va_assert(h.getHoughSpectrum(t, p) == hs, "the spectrum of a direction is the sum of the squares of its counts");
                va_assert(h.getHoughSpectrum({t, p}) == hs, "both queries give the same spectrum");
            } else
                hs = 0;
        }
}
static const Scalar C[] = {0.31f, -0.72f, 1.13f, -1.9f};
static Vector3 point(int k) { return Vector3(C[k % 4], C[(k / 4) % 4], C[(k + k / 8) % 4]); }
ENTRY spec_init() {
    int t = 1 + va_choice(3), p = 1 + va_choice(9), r = 1 + va_choice(5);
    Scalar res = va_choice(2) ? 0.5f : 0.13f;
    H h(t, p, r, res);
    indices(h, t, p, r);
    normals(h);
    va_near(h.getRhoRes(), res, 1e-9, "the resolution of the distance is that given");
    va_near(h.getThetaMin(), 0, 1e-6, "directions start at the equator");
    va_near(h.getThetaRes() * t, PI_ / 2, 1e-5, "directions cover the latitudes up to the pole");
    va_near(h.getPhiRes() * p, 2 * PI_, 1e-5, "directions cover a turn of longitude");
    va_near(h.getRhoMin(), -(r / 2) * (double)res, 1e-5, "distances are centred");
    VectorVector3 none;
    votes(h, none);
    h.insert(none);
    votes(h, none);
}
ENTRY spec_params() {
    H h;
    double m0 = va_real(-1, 1), m1 = va_real(-3, 3), m2 = va_real(-5, 5), r2 = va_real(0.1, 2);
    int t = 1 + va_choice(2), p = 1 + va_choice(2), r = 1 + va_choice(3);
    h.init({t, p, r}, Vector3(m0, m1, m2), Vector3(0.25, 0.5, r2));
    indices(h, t, p, r);
    va_near(h.getThetaMin(), m0, 1e-6, "the minimum latitude is that given");
    va_near(h.getPhiMin(), m1, 1e-6, "the minimum longitude is that given");
    va_near(h.getRhoMin(), m2, 1e-6, "the minimum distance is that given");
    va_near(h.getThetaRes(), 0.25, 1e-6, "the resolution of latitude is that given");
    va_near(h.getPhiRes(), 0.5, 1e-6, "the resolution of longitude is that given");
    va_near(h.getRhoRes(), r2, 1e-6, "the resolution of distance is that given");
    normals(h);
    for (int i = 0; i < t; i++)
        for (int j = 0; j < p; j++)
            for (int k = 0; k < r; k++) {
                auto a = h.getPlaneParam(i, j, k), b = h.getPlaneParam({i, j, k});
                const Vector3& n = h.getNormal(i, j);
                for (int d = 0; d < 3; d++) {
                    va_near(a(d), n(d), 1e-6, "the plane of a bin has its normal");
                    va_near(b(d), n(d), 1e-6, "the plane of an index triple has its normal");
                }
                va_near(a(3), -(m2 + r2 * k), 1e-5, "the plane of a bin is at its distance");
                va_near(b(3), -(m2 + r2 * k), 1e-5, "the plane of an index triple is at its distance");
            }
}
// one point anywhere along a line: every border between bins is crossed
ENTRY spec_line() {
    int s = va_choice(4);
    H h;
    h.init({2, s == 2 ? 9 : 3, 4}, Vector3(0, 0, s == 3 ? 0.6 : s == 1 ? 0.0 : -1.0), Vector3(0.7, 1.1, 0.5));
    double t = va_real(-3, 3);
    int k = s == 2 && !va_tier() ? 2 : va_choice(3);
    Vector3 q(k == 0 ? t : 0.2, k == 1 ? t : -0.3, k == 2 ? t : 0.1);
    VectorVector3 pts;
    pts.push_back(q);
    h.insert(pts);
    votes(h, pts);
    va_reach("votes counted");
}
// several points, inserted together, one after the other, or through iterators
struct Raw {
    float a, b, c;
};
ENTRY spec_history() {
    H h(2, va_choice(2) ? 4 : 8, 5, 0.6f);
    VectorVector3 pts;
    int n = 1 + va_choice(3), k0 = va_choice(4);
    for (int i = 0; i < n; i++) pts.push_back(point(k0 + 5 * i));
    switch (va_choice(5)) {
        case 0: h.insert(pts); break;
        case 1:
            for (auto& q : pts) {
                VectorVector3 one(1, q);
                h.insert(one);
            }
            break;
        case 2: {
            VectorVector3 other(2, point(3));
            h.insert(other);
            h.setZero();
            VectorVector3 none;
            votes(h, none);
            h.insert(pts);
            break;
        }
        case 3: {
            VectorVector3 other(2, point(3));
            h.insert(other);
            std::vector<Raw> raw;
            for (auto& q : pts) raw.push_back({q(2), q(1), q(0)});
            auto conv = [](const Raw& r) -> Vector3 { return Vector3(r.c, r.b, r.a); };
            h.insert(raw.begin(), raw.end(), conv);
            break;
        }
        default: {
            VectorVector3 other(2, point(3));
            h.insert(other);
            h.init({2, 5, 4}, Vector3(0, 0, -1), Vector3(0.5, 1, 0.7));
            h.insert(pts);
        }
    }
    votes(h, pts);
}
// more points than small counters hold, and bins laid out again
ENTRY spec_many() {
    va_long(400000000);
    H h;
    h.init({1, 1, 2}, Vector3(0, 0, 0), Vector3(0.7, 1.1, 0.5));
    int n = va_choice(2) ? 70000 : 300;
    VectorVector3 pts(n, Vector3(0.7f, 0.1f, 0.2f));
    h.insert(pts);
    va_assert(h.getHoughTransform(0, 0, 1) == (size_t)n && h.getHoughTransform(0, 0, 0) == 0, "every point votes, however many there are");
    va_assert(h.getHoughSpectrum(0, 0) == (size_t)n * n, "the spectrum of a direction is the sum of the squares of its counts");
    va_reach("many points");
}
ENTRY spec_layout() {
    static const int L[][2] = {{4, 4}, {2, 6}, {6, 2}, {1, 9}, {3, 5}, {5, 3}};
    int a = va_choice(6), b = va_choice(6);
    H h(L[a][0], L[a][1], 3, 0.5f);
    VectorVector3 other(2, point(3)), pts(1, point(6));
    h.insert(other);
    h.init(L[b][0], L[b][1], 4, 0.7f);
    indices(h, L[b][0], L[b][1], 4);
    normals(h);
    h.insert(pts);
    votes(h, pts);
    va_reach("laid out again");
}
// planes: the peaks of the spectrum, and for each of them the peaks of its counts
ENTRY spec_planes() {
    int cc = va_choice(3);
    H h0, h1(3, cc ? 4 : 7, 6, 0.4f);
    if (cc == 2) h0.init(3, 4, 6, 0.4f);
    else va_assert(h0.getThetaNum() == 0 && h0.getPhiNum() == 0 && h0.getRhoNum() == 0, "a detector that was not initialised has no bins");
    H& h = cc == 2 ? h0 : h1;
    VectorVector3 pts;
    int n = 2 + va_choice(4), k0 = va_choice(4);
    for (int i = 0; i < n; i++) pts.push_back(point(k0 + 3 * i));
    h.insert(pts);
    int w = va_choice(3), wt = 1, wp = 1, wr = 1;
    if (w == 1) {
        wp = 2;
        wr = 2;
        h.setPeakWindow(wt, wp, wr);
    } else if (w == 2) {
        wt = 2;
        wr = 3;
        h.setPeakWindow((Scalar)(h.getThetaRes() * 1.8), (Scalar)(h.getPhiRes() * 0.75), (Scalar)(h.getRhoRes() * 2.1));
    }
    PeakFinderD<2, size_t, int, std::greater<size_t>> pf;
    pf.setDomain({h.getThetaNum(), h.getPhiNum()});
    pf.setPeakWindow({wt, wp});
    std::vector<H::Indices2> ref, got;
    pf.detect([&](const H::Indices2& i) -> size_t { return h.getHoughSpectrum(i); }, std::back_inserter(ref));
    h.findSpectrumMax(got);
    va_assert(ref == got, "the directions found are the peaks of the spectrum in the window set");
    VectorVector3 nm(3, Vector3(1, 2, 3));
    h.findNormalMax(nm);
    va_assert(nm.size() == ref.size(), "one normal per direction found");
    for (size_t i = 0; i < ref.size(); i++)
        for (int d = 0; d < 3; d++) va_assert(nm[i](d) == h.getNormal(ref[i])(d), "the normals found are those of the directions");
    std::vector<H::Indices3> all;
    for (auto& i : ref) {
        PeakFinderD<1, size_t, int, std::greater<size_t>> pr;
        typedef PeakFinderD<1, size_t, int, std::greater<size_t>>::Indices I1;
        pr.setDomain({h.getRhoNum()});
        pr.setPeakWindow({wr});
        std::vector<I1> rs;
        pr.detect([&](const I1& r) -> size_t { return h.getHoughTransform(i[0], i[1], r[0]); }, std::back_inserter(rs));
        std::vector<H::Indices3> par(2);
        h.findParallelPlanes(i[0], i[1], par);
        H::VectorPlaneParam pp(1);
        h.findParallelPlanes(i[0], i[1], pp);
        va_assert(par.size() == rs.size() && pp.size() == rs.size(), "one parallel plane per peak of the counts of the direction");
        for (size_t k = 0; k < rs.size() && k < par.size(); k++) {
            H::Indices3 e = {i[0], i[1], rs[k][0]};
            va_assert(par[k] == e, "the parallel planes found are the peaks of the counts");
            auto a = h.getPlaneParam(e);
            for (int d = 0; d < 4; d++) va_assert(pp[k](d) == a(d), "their parameters are those of their bins");
            all.push_back(e);
        }
    }
    std::vector<H::Indices3> pl;
    h.findPlanes(pl);
    va_assert(pl.size() == all.size(), "every parallel plane of every direction found is a plane found");
    for (size_t i = 0; i < pl.size(); i++) {
        bool f = false;
        for (auto& e : all) f = f || e == pl[i];
        va_assert(f, "every plane found is a peak of its direction");
        for (size_t j = 0; j < i; j++) va_assert(pl[j] != pl[i], "no plane is found twice");
        if (i) va_assert(h.getHoughTransform(pl[i - 1]) >= h.getHoughTransform(pl[i]), "planes are ordered by their counts");
    }
    H::VectorPlaneParam pp;
    h.findPlanes(pp);
    va_assert(pp.size() == pl.size(), "as many parameters as planes");
    for (size_t i = 0; i < pl.size() && i < pp.size(); i++) {
        auto a = h.getPlaneParam(pl[i]);
        for (int d = 0; d < 4; d++) va_assert(pp[i](d) == a(d), "the parameters are those of the planes, in their order");
    }
    va_reach("planes compared");
}
ENTRY spec_bounds() {
    H h(2, 3, 4, 0.5f);
    int t = va_choice(4) - 1, p = va_choice(5) - 1, r = va_choice(6) - 1;
    bool ok2 = t >= 0 && t < 2 && p >= 0 && p < 3, ok3 = ok2 && r >= 0 && r < 4;
    int q = va_choice(8);
    va_exit_ok(q < 4 ? !ok3 : !ok2);
    switch (q) {
        case 0: h.getHoughTransform(t, p, r); break;
        case 1: h.getHoughTransform({t, p, r}); break;
        case 2: h.getPlaneParam(t, p, r); break;
        case 3: h.getPlaneParam({t, p, r}); break;
        case 4: h.getHoughSpectrum(t, p); break;
        case 5: h.getHoughSpectrum({t, p}); break;
        case 6: h.getNormal(t, p); break;
        default: h.getNormal({t, p});
    }
    va_assert(q < 4 ? ok3 : ok2, "a query outside the bins ends the program");
}
