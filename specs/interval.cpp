// Spec: IntervalIndices is a box of integer cells; its operations are box algebra.
#include "va.h"
#include <rofl/common/interval_indices.h>
using rofl::IntervalIndices;
template <size_t D, typename I>
using Arr = std::array<I, D>;
template <typename I>
static I any() { return (I)va_int(-100000, 100000); }
template <size_t D, typename I>
static void params(Arr<D, I>& mn, Arr<D, I>& dm, bool allowEmpty) {
    for (size_t d = 0; d < D; d++) mn[d] = any<I>(), dm[d] = (I)va_int(allowEmpty ? 0 : 1, 1000);
}
// an arbitrary cell, classified by the oracle coordinate-wise
template <size_t D, typename I>
static bool in(const Arr<D, I>& c, const Arr<D, I>& mn, const Arr<D, I>& dm) {
    for (size_t d = 0; d < D; d++)
        if (c[d] < mn[d] || c[d] > mn[d] + dm[d] - 1) return false;
    return true;
}
template <size_t D, typename I>
static Arr<D, I> cell() {
    Arr<D, I> c;
    for (size_t d = 0; d < D; d++) c[d] = (I)va_int(-200000, 200000);
    return c;
}
template <size_t D, typename I>
static void exact(const IntervalIndices<D, I>& iv, const Arr<D, I>& mn, const Arr<D, I>& dm, bool members = true) {
    bool empty = false;
    for (size_t d = 0; d < D; d++) {
        va_assert(iv.min()[d] == mn[d] && iv.first()[d] == mn[d], "lower corner");
        va_assert(iv.dimensions()[d] == dm[d] && iv.dimension(d) == dm[d], "extents");
        va_assert(iv.max()[d] == mn[d] + dm[d] - 1, "upper corner is the last included cell");
        va_assert(iv.last()[d] == mn[d] + dm[d], "last() is one past the upper corner");
        if (dm[d] == 0) empty = true;
    }
    va_assert(iv.empty() == empty, "empty exactly when an extent is zero");
    if (members) {
        Arr<D, I> c = cell<D, I>();
        va_assert(iv.inside(c) == in<D, I>(c, mn, dm), "inside is membership in the box");
    }
}
template <size_t D, typename I>
static void size() {
    Arr<D, I> mn, dm;
    params<D, I>(mn, dm, true);
    IntervalIndices<D, I> iv(mn, dm);
    size_t s = 1;
    for (size_t d = 0; d < D; d++) s *= (size_t)dm[d];
    va_assert(iv.size() == s, "size is the product of the extents");
    va_reach("size");
}
template <size_t D, typename I>
static void build() {
    Arr<D, I> mn, dm;
    int how = va_choice(5);
    if (how == 0) {
        params<D, I>(mn, dm, true);
        exact<D, I>(IntervalIndices<D, I>(mn, dm), mn, dm);
    } else if (how == 1) {
        params<D, I>(mn, dm, true);
        IntervalIndices<D, I> iv;
        iv.initBounds(mn, dm);
        exact<D, I>(iv, mn, dm);
        exact<D, I>(iv.clone(), mn, dm, false);
    } else if (how == 2) {
        Arr<D, I> c, w;
        for (size_t d = 0; d < D; d++) {
            c[d] = any<I>();
            w[d] = (I)va_int(0, 500);
            mn[d] = c[d] - w[d];
            dm[d] = 2 * w[d] + 1;
        }
        IntervalIndices<D, I> iv;
        iv.initCentered(c, w);
        exact<D, I>(iv, mn, dm);
    } else if (how == 3) {
        Arr<D, I> mx;
        params<D, I>(mn, dm, true);
        for (size_t d = 0; d < D; d++) mx[d] = mn[d] + dm[d] - 1;
        IntervalIndices<D, I> iv;
        iv.initMinMax(mn, mx);
        exact<D, I>(iv, mn, dm);
    } else {
        mn.fill(0);
        dm.fill(0);
        exact<D, I>(IntervalIndices<D, I>(), mn, dm);
    }
    va_reach("build");
}
template <size_t D, typename I>
static void meet() {
    Arr<D, I> am, ad, bm, bd;
    params<D, I>(am, ad, true);
    params<D, I>(bm, bd, true);
    IntervalIndices<D, I> a(am, ad), b(bm, bd);
    IntervalIndices<D, I> i = a.intersect(b);
    Arr<D, I> c = cell<D, I>();
    bool both = in<D, I>(c, am, ad) && in<D, I>(c, bm, bd);
    va_assert(i.inside(c) == both, "a cell is in the intersection exactly when it is in both intervals");
    for (size_t d = 0; d < D; d++) va_assert(i.dimensions()[d] >= 0, "extents of an intersection are never negative");
    va_reach("meet");
}
template <size_t D, typename I>
static void meetEmpty() {  // disjoint or empty operands: the result is empty and is iterated zero times
    Arr<D, I> am, ad, bm, bd;
    params<D, I>(am, ad, true);
    params<D, I>(bm, bd, true);
    IntervalIndices<D, I> i = IntervalIndices<D, I>(am, ad).intersect(IntervalIndices<D, I>(bm, bd));
    bool empty = false;
    for (size_t d = 0; d < D; d++)
        if (ad[d] == 0 || bd[d] == 0 || am[d] > bm[d] + bd[d] - 1 || bm[d] > am[d] + ad[d] - 1) empty = true;
    va_assert(i.empty() == empty, "an intersection is empty exactly when the intervals share no cell");
    if (empty) {
        bool zero = false;
        for (size_t d = 0; d < D; d++)
            if (i.dimensions()[d] == 0) zero = true;
        va_assert(zero, "an empty intersection has a zero extent");
        if (D >= 3) { va_reach("meetEmpty"); return; }
        va_assert(i.size() == 0, "an empty interval has size 0");
        va_assert(i.beginRaster() == i.endRaster(), "an empty interval is iterated zero times");
        va_assert(i.beginBoustrophedon() == i.endBoustrophedon(), "an empty interval is iterated zero times");
    }
    va_reach("meetEmpty");
}
template <size_t D, typename I>
static void stack() {
    Arr<D, I> mn, dm, sm, sd;
    params<D, I>(mn, dm, false);
    size_t d = (size_t)va_choice((int)D);
    I incr = (I)va_int(-1000, 1000);
    IntervalIndices<D, I> iv(mn, dm);
    IntervalIndices<D, I> s = iv.stacked(d, incr);
    sm = mn;
    sd = dm;
    if (incr >= 0) sm[d] = mn[d] + dm[d], sd[d] = incr;
    else sm[d] = mn[d] + incr, sd[d] = -incr;
    exact<D, I>(s, sm, sd);
    exact<D, I>(iv, mn, dm, false);
    va_reach("stack");
}
template <size_t D, typename I>
static void move() {
    Arr<D, I> mn, dm, t, sm;
    params<D, I>(mn, dm, true);
    IntervalIndices<D, I> a(mn, dm), b(mn, dm);
    size_t d = (size_t)va_choice((int)D);
    for (size_t k = 0; k < D; k++) t[k] = any<I>(), sm[k] = mn[k] + t[k];
    a.translate(t);
    exact<D, I>(a, sm, dm, false);
    sm = mn;
    sm[d] += t[d];
    b.translate(d, t[d]);
    exact<D, I>(b, sm, dm, false);
    va_reach("move");
}
#define E(name, D, I)                         \
    void spec_##name##_size() { size<D, I>(); }   \
    void spec_##name##_build() { build<D, I>(); } \
    void spec_##name##_meet() { meet<D, I>(); }   \
    void spec_##name##_meetEmpty() { meetEmpty<D, I>(); } \
    void spec_##name##_stack() { stack<D, I>(); } \
    void spec_##name##_move() { move<D, I>(); }
extern "C" {
E(d1, 1, int)
E(d2, 2, int)
E(d2l, 2, long)
void spec_d3_size() { size<3, int>(); }
void spec_d3_build() { build<3, int>(); }
void spec_d3_stack() { stack<3, int>(); }
void spec_d3_move() { move<3, int>(); }
void spec_thorough_d3_meet() { meet<3, int>(); }
void spec_d3_meetEmpty() { meetEmpty<3, int>(); }
void spec_thorough_d4_build() { build<4, int>(); }
void spec_d4_size() { size<4, int>(); }
}
