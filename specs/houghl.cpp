// C28: Hough line detector. Model streams.
#include <iostream>
#include <rofl/geometry/hough_line_detector.h>
#include <cmath>
#include <vector>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void
extern "C" __attribute__((used)) void va_clock_ticks() {}
typedef HoughLineDetector H;
static const double PI_ = 3.14159265358979323846;
static void votes(H& h, const VectorVector2& pts) {
    for (int t = 0; t < h.getThetaNum(); t++) {
        double th = h.getThetaMin() + (double)h.getThetaRes() * t, c = std::cos(th), s = std::sin(th);
        size_t hs = 0;
        bool sure = true;
        for (int r = 0; r < h.getRhoNum(); r++) {
            size_t k = 0;
            double lo = (double)h.getRhoMin() + (double)h.getRhoRes() * r, hi = lo + h.getRhoRes();
            for (auto& q : pts) {
                double d = c * q(0) + s * q(1);
                if (std::fabs(d - lo) < 1e-4 || std::fabs(d - hi) < 1e-4) sure = false;
                if (lo <= d && d < hi) k++;
            }
            if (!sure) break;
            va_assert(h.getHoughTransform(t, r) == k, "a bin counts the points whose distance along its normal it covers");
            va_assert(h.getHoughTransform({t, r}) == k, "both queries give the same count");
            hs += k * k;
        }
        if (sure) va_assert(h.getHoughSpectrum(t) == hs, "the spectrum of a direction is the sum of the squares of its counts");
    }
}
static const Scalar C[] = {0.31f, -0.72f, 1.13f, -1.9f};
static Vector2 point(int k) { return Vector2(C[k % 4], C[(k / 4 + k) % 4]); }
ENTRY spec_init() {
    int t = 1 + va_choice(9), r = 1 + va_choice(5);
    double res = va_real(0.1, 2);
    H h(t, r, res);
    va_assert(h.getThetaNum() == t && h.getRhoNum() == r, "the numbers of bins are those given");
    va_near(h.getThetaMin(), 0, 1e-6, "directions start at the x axis");
    va_near(h.getThetaRes() * t, PI_, 1e-5, "directions cover half a turn");
    va_near(h.getRhoMin(), 0, 1e-6, "distances start at the origin");
    va_near(h.getRhoRes(), res, 1e-6, "the resolution of distance is that given");
    VectorVector2 none;
    votes(h, none);
    h.insert(none);
    votes(h, none);
    H g;
    double m0 = va_real(-3, 3), m1 = va_real(-5, 5);
    g.init({t, r}, Vector2(m0, m1), Vector2(0.25, res));
    va_assert(g.getThetaNum() == t && g.getRhoNum() == r, "the numbers of bins are those given");
    va_near(g.getThetaMin(), m0, 1e-6, "the minimum angle is that given");
    va_near(g.getRhoMin(), m1, 1e-6, "the minimum distance is that given");
    va_near(g.getThetaRes(), 0.25, 1e-6, "the resolution of angle is that given");
    va_near(g.getRhoRes(), res, 1e-6, "the resolution of distance is that given");
    H e;
    va_assert(e.getThetaNum() == 0 && e.getRhoNum() == 0, "a detector that was not initialised has no bins");
    va_reach("initialised");
}
ENTRY spec_line() {
    int s = va_choice(4);
    H h;
    h.init({s == 2 ? 6 : 3, 4}, Vector2(s == 2 ? 0.1 : 0, s == 3 ? 0.6 : s == 1 ? 0.0 : -1.0), Vector2(0.7, 0.5));
    double t = va_real(-3, 3);
    int k = va_choice(2);
    Vector2 q(k == 0 ? t : 0.2, k == 1 ? t : -0.3);
    VectorVector2 pts;
    pts.push_back(q);
    h.insert(pts);
    votes(h, pts);
    va_reach("votes counted");
}
ENTRY spec_history() {
    H h(va_choice(2) ? 4 : 9, 5, 0.6f);
    VectorVector2 pts, other(2, point(3));
    int n = 1 + va_choice(3), k0 = va_choice(4);
    for (int i = 0; i < n; i++) pts.push_back(point(k0 + 5 * i));
    switch (va_choice(4)) {
        case 0: h.insert(pts); break;
        case 1:
            for (auto& q : pts) {
                VectorVector2 one(1, q);
                h.insert(one);
            }
            break;
        case 2: {
            h.insert(other);
            h.setZero();
            VectorVector2 none;
            votes(h, none);
            h.insert(pts);
            break;
        }
        default:
            h.insert(other);
            h.init({5, 4}, Vector2(0, -1), Vector2(0.5, 0.7));
            h.insert(pts);
    }
    votes(h, pts);
}
ENTRY spec_many() {
    va_long(400000000);
    H h;
    h.init({1, 2}, Vector2(0, 0), Vector2(0.7, 0.5));
    int n = va_choice(2) ? 70000 : 300;
    VectorVector2 pts(n, Vector2(0.7f, 0.1f));
    h.insert(pts);
    va_assert(h.getHoughTransform(0, 1) == (size_t)n && h.getHoughTransform(0, 0) == 0, "every point votes, however many there are");
    va_assert(h.getHoughSpectrum(0) == (size_t)n * n, "the spectrum of a direction is the sum of the squares of its counts");
    va_reach("many points");
}
ENTRY spec_layout() {
    static const int L[][2] = {{4, 4}, {2, 6}, {6, 2}, {9, 1}, {1, 9}, {5, 3}};
    int a = va_choice(6), b = va_choice(6);
    H h(L[a][0], L[a][1], 0.5f);
    VectorVector2 other(2, point(3)), pts(1, point(6));
    h.insert(other);
    h.init({L[b][0], L[b][1]}, Vector2(0.1, -1.2), Vector2(0.3, 0.7));
    va_assert(h.getThetaNum() == L[b][0] && h.getRhoNum() == L[b][1], "the numbers of bins are those given last");
    h.insert(pts);
    votes(h, pts);
    va_reach("laid out again");
}
ENTRY spec_lines() {
    H h0, h1(3, 2, 0.5f), h2(7, 6, 0.4f);
    int c = va_choice(4);
    H& h = c == 3 ? h2 : c == 2 ? h1 : h0;
    if (c < 3) h.init({c == 0 ? 4 : 7, 6}, Vector2(0.1, -1.2), Vector2(0.45, 0.4));
    VectorVector2 pts;
    int n = 2 + va_choice(4), k0 = va_choice(4);
    for (int i = 0; i < n; i++) pts.push_back(point(k0 + 3 * i));
    h.insert(pts);
    int w = va_choice(3), wt = 1, wr = 1;
    if (w == 1) {
        wr = 2;
        h.setPeakWindow(wt, wr);
    } else if (w == 2) {
        wt = 2;
        wr = 3;
        h.setPeakWindow((Scalar)(h.getThetaRes() * 1.8), (Scalar)(h.getRhoRes() * 2.1));
    }
    typedef H::Indices1 I1;
    H::PeakFinder1 pf;
    pf.setDomain({h.getThetaNum()});
    pf.setPeakWindow({wt});
    std::vector<I1> ref, got;
    pf.detect([&](const I1& i) -> size_t { return h.getHoughSpectrum(i[0]); }, std::back_inserter(ref));
    h.findSpectrumIndicesMax(got);
    va_assert(ref == got, "the directions found are the peaks of the spectrum in the window set");
    std::vector<int> idx;
    std::vector<Scalar> ang;
    VectorVector2 nm;
    h.findSpectrumIndexMax(idx);
    h.findSpectrumAngleMax(ang);
    h.findNormalMax(nm);
    va_assert(idx.size() == ref.size() && ang.size() == ref.size() && nm.size() == ref.size(), "one index, one angle and one normal per direction found");
    std::vector<H::Indices2> all, ln;
    for (size_t i = 0; i < ref.size() && i < idx.size() && i < ang.size() && i < nm.size(); i++) {
        double a = h.getThetaMin() + (double)h.getThetaRes() * ref[i][0];
        va_assert(idx[i] == ref[i][0], "the indices found are those of the directions");
        va_near(ang[i], a, 1e-5, "the angles found are those of the directions");
        va_near(nm[i](0), std::cos(a), 1e-5, "the normals found are those of the directions");
        va_near(nm[i](1), std::sin(a), 1e-5, "the normals found are those of the directions");
        H::PeakFinder1 pr;
        pr.setDomain({h.getRhoNum()});
        pr.setPeakWindow({wr});
        std::vector<I1> rs;
        pr.detect([&](const I1& r) -> size_t { return h.getHoughTransform(ref[i][0], r[0]); }, std::back_inserter(rs));
        for (auto& r : rs) all.push_back({ref[i][0], r[0]});
    }
    h.findLines(ln);
    va_assert(ln == all, "the lines found are the peaks of the counts of the directions found");
    va_reach("lines compared");
}
ENTRY spec_bounds() {
    H h(2, 4, 0.5f);
    int t = va_choice(4) - 1, r = va_choice(6) - 1, q = va_choice(3);
    bool ok1 = t >= 0 && t < 2, ok = q == 2 ? ok1 : ok1 && r >= 0 && r < 4;
    va_exit_ok(!ok);
    switch (q) {
        case 0: h.getHoughTransform(t, r); break;
        case 1: h.getHoughTransform({t, r}); break;
        default: h.getHoughSpectrum(t);
    }
    va_assert(ok, "a query outside the bins ends the program");
}
