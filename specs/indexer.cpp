// Spec: raster indexers (C04) and boustrophedon indexer (C05, -DBOUS=1).
#include "va.h"
#include <rofl/common/interval_indices.h>
#ifndef BOUS
#define BOUS 0
#endif
using namespace rofl;
using namespace rofl::detail;
template <size_t D, typename I>
using Arr = std::array<I, D>;
// The domain [mn, mn+dm) with dm symbolic; offset o of a cell, symbolic.
template <size_t D, typename I>
struct Dom {
    Arr<D, I> mn, dm, off, idx;
    I pos = 0, total = 1;
    Dom(long maxDim) {
        for (size_t d = 0; d < D; d++) {
            mn[d] = (I)(std::is_signed<I>::value ? va_int(-100000, 100000) : va_int(0, 100000));
            dm[d] = (I)va_int(1, maxDim);
            off[d] = (I)va_int(0, maxDim - 1);
            va_assume(off[d] < dm[d]);
            idx[d] = mn[d] + off[d];
        }
        for (size_t d = 0; d < D; d++) {
            pos += total * off[d];
            total *= dm[d];
        }
    }
};
#if !BOUS
template <size_t D, typename I>
static void forward(long maxDim) {  // indices -> position -> indices
    Dom<D, I> c(maxDim);
    I p = RasterIndexer<D, I>::getPos(c.mn, c.dm, c.idx);
    I q = StaticRasterIndexer<D, I>::getPos(c.mn.data(), c.dm.data(), c.idx.data());
    va_assert(p == c.pos, "raster position is the mixed-radix number of the offsets, index 0 fastest");
    va_assert(q == c.pos, "static raster position equals the dynamic raster position");
    va_assert(p >= 0 && p < c.total, "raster position lies in [0,size)");
    va_reach("forward");
}
template <size_t D, typename I>
static void backward(long maxDim) {
    Dom<D, I> c(maxDim);
    Arr<D, I> r = RasterIndexer<D, I>::getIndices(c.mn, c.dm, c.pos);
    Arr<D, I> s;
    s.fill(0);
    StaticRasterIndexer<D, I>::getIndices(c.pos, c.mn.data(), c.dm.data(), s.data());
    for (size_t d = 0; d < D; d++) {
        va_assert(r[d] == c.idx[d], "raster getIndices inverts getPos");
        va_assert(s[d] == c.idx[d], "static raster getIndices inverts getPos");
    }
    va_reach("backward");
}
extern "C" {
void spec_fwd1() { forward<1, int>(30000); }
void spec_fwd2() { forward<2, int>(30000); }
void spec_fwd3() { forward<3, int>(1000); }
void spec_fwd4() { forward<4, int>(200); }
void spec_fwd5() { forward<5, int>(60); }
void spec_fwd2l() { forward<2, long>(1000000); }
void spec_fwd3l() { forward<3, long>(1000000); }
void spec_fwd3u() { forward<3, unsigned>(1000); }
void spec_bwd1() { backward<1, int>(30000); }
void spec_bwd2() { backward<2, int>(30000); }
void spec_bwd3() { backward<3, int>(1000); }
void spec_bwd4() { backward<4, int>(200); }
void spec_bwd5() { backward<5, int>(60); }
void spec_bwd2l() { backward<2, long>(1000000); }
void spec_bwd3l() { backward<3, long>(1000000); }
void spec_bwd3u() { backward<3, unsigned>(1000); }
}
#else
// dimension and offset parities are partitioned: the mirroring depends on parities only
template <size_t D, typename I>
struct Zig {
    Arr<D, I> mn, dm, off;
    int dpar[D], opar[D];
    I pos = 0, total = 1;
    Zig(long maxDim) {
        for (size_t d = 0; d < D; d++) {
            mn[d] = (I)va_int(-100000, 100000);
            dpar[d] = va_choice(2);
            dm[d] = (I)(2 * va_int(0, maxDim / 2) + dpar[d]);
            va_assume(dm[d] >= 1);
            opar[d] = va_choice(2);
            off[d] = (I)(2 * va_int(0, maxDim / 2) + opar[d]);
            va_assume(off[d] < dm[d]);
        }
        for (size_t d = 0; d < D; d++) {
            pos += total * off[d];
            total *= dm[d];
        }
    }
};
template <size_t D, typename I>
static void zig(long maxDim) {
    Zig<D, I> z(maxDim);
    Arr<D, I> r = BoustrophedonIndexer<D, I>::getIndices(z.mn, z.dm, z.pos);
    int odd = 0;  // parity of the number of the row the cell lies in
    for (int d = (int)D - 1; d >= 0; d--) {
        I want = z.mn[d] + (odd ? z.dm[d] - 1 - z.off[d] : z.off[d]);
        va_assert(r[d] >= z.mn[d] && r[d] < z.mn[d] + z.dm[d], "visited cell lies inside the interval");
        va_assert(r[d] == want, "zig-zag order: a coordinate runs backwards exactly on the odd rows");
        odd = (z.opar[d] + z.dpar[d] * odd) % 2;
    }
    va_reach("zig");
}
// consecutive positions: the carry pattern is partitioned by the coordinate that advances
template <size_t D, typename I>
static void step(long maxDim) {
    int k = va_choice((int)D);
    Arr<D, I> mn, dm, off;
    I pos = 0, total = 1;
    for (size_t d = 0; d < D; d++) {
        mn[d] = (I)va_int(-100000, 100000);
        dm[d] = (I)(2 * va_int(0, maxDim / 2) + va_choice(2));
        va_assume(dm[d] >= 1);
        if ((int)d < k) off[d] = dm[d] - 1;
        else {
            off[d] = (I)(2 * va_int(0, maxDim / 2) + va_choice(2));
            va_assume(off[d] < dm[d]);
            if ((int)d == k) va_assume(off[d] + 1 < dm[d]);
        }
    }
    for (size_t d = 0; d < D; d++) {
        pos += total * off[d];
        total *= dm[d];
    }
    Arr<D, I> a = BoustrophedonIndexer<D, I>::getIndices(mn, dm, pos);
    Arr<D, I> b = BoustrophedonIndexer<D, I>::getIndices(mn, dm, pos + 1);
    for (size_t d = 0; d < D; d++) {
        if ((int)d == k) va_assert(b[d] - a[d] == 1 || a[d] - b[d] == 1, "consecutive cells differ by one in the advancing coordinate");
        else va_assert(a[d] == b[d], "consecutive cells agree in every other coordinate");
    }
    va_reach("step");
}
extern "C" {
void spec_zig1() { zig<1, int>(30000); }
void spec_zig2() { zig<2, int>(30000); }
void spec_zig3() { zig<3, int>(1000); }
void spec_zig4() { zig<4, int>(200); }
void spec_zig2l() { zig<2, long>(1000000); }
void spec_zig3l() { zig<3, long>(1000000); }
void spec_step1() { step<1, int>(30000); }
void spec_step2() { step<2, int>(30000); }
void spec_step3() { step<3, int>(1000); }
void spec_step4() { step<4, int>(200); }
}
#endif
// iteration: every extent up to a bound, any origin; forwards, backwards, post- and pre-increment
template <size_t D, typename It>
static void visit(const Arr<D, int>& mn, const Arr<D, int>& dm, It it, It end) {
    int n = 1;
    for (size_t d = 0; d < D; d++) n *= dm[d];
    It save = it;
    for (int p = 0; p < n; p++) {
        va_assert(it != end && !(it == end), "iteration ends only after every cell");
        Arr<D, int> c = *it;
        int q = p, odd = 0;
        Arr<D, int> w;
        for (size_t d = 0; d < D; d++) w[d] = q % dm[d], q /= dm[d];
        if (BOUS)
            for (int d = (int)D - 1; d >= 0; d--) {
                if (odd) w[d] = dm[d] - 1 - w[d];
                odd = (odd + w[d]) % 2;
            }
        for (size_t d = 0; d < D; d++) va_assert(c[d] == mn[d] + w[d], "iteration visits the cells in the order of the indexer");
        Arr<D, int> viaArrow = *(it.operator->());
        for (size_t d = 0; d < D; d++) va_assert(viaArrow[d] == c[d], "-> and * denote the same cell");
        if (p % 2) {
            ++it;
            --it;
            for (size_t d = 0; d < D; d++) va_assert((*it)[d] == c[d], "-- undoes ++");
            ++it;
        } else {
            auto old = it++;
            for (size_t d = 0; d < D; d++) va_assert((*old)[d] == c[d], "post-increment yields the old cell");
            auto back = it;
            auto nxt = back--;
            va_assert(back == old && nxt == it, "post-decrement yields the later position and moves back");
        }
    }
    va_assert(it == end && !(it != end), "iteration ends after exactly size() cells");
    va_assert(n == 0 || save != end, "begin differs from end on a non-empty interval");
    va_reach("visit");
}
template <size_t D>
static void iterate(int maxDim) {
    Arr<D, int> mn, dm;
    for (size_t d = 0; d < D; d++) {
        mn[d] = (int)va_int(-100000, 100000);
        dm[d] = va_choice(maxDim + 1);
    }
    IntervalIndices<D, int> iv(mn, dm);
#if BOUS
    visit<D>(mn, dm, iv.beginBoustrophedon(), iv.endBoustrophedon());
#else
    visit<D>(mn, dm, iv.beginRaster(), iv.endRaster());
#endif
}
extern "C" {
void spec_iter1() { iterate<1>(va_tier() ? 40 : 12); }
void spec_iter2() { iterate<2>(va_tier() ? 9 : 5); }
void spec_iter3() { iterate<3>(va_tier() ? 5 : 3); }
void spec_thorough_iter4() { iterate<4>(3); }
}
