// Spec: Morton (Z-order) comparison of integer vectors (C11); distance, enclosing block and split (C12, -DDIST=1).
#include "va.h"
#include <limits>
#include <type_traits>
#include <rofl/common/morton_sort.h>
using namespace rofl;
#ifndef DIST
#define DIST 0
#endif
// a pair of scalars: equal, or first differing at bit h with the given direction; everything else arbitrary
template <typename I>
struct Pair {
    I a, b;
    int h;      // highest differing bit, -1 if equal
    bool less;  // a < b as values
    Pair(int hh, bool aLow) : h(hh) {
        typedef typename std::make_unsigned<I>::type U;
        const int W = sizeof(I) * 8;
        U x = 0, y = 0;
        if (h < 0) {
            x = y = (U)va_bits(W);
            less = false;
        } else {
            U pre = h + 1 < W ? (U)((U)va_bits(W - 1 - h) << (h + 1)) : (U)0;
            U lx = h ? (U)va_bits(h) : (U)0, ly = h ? (U)va_bits(h) : (U)0;
            U one = (U)((U)1 << h);
            x = (U)(pre | lx | (aLow ? (U)0 : one));
            y = (U)(pre | ly | (aLow ? one : (U)0));
            less = (std::is_signed<I>::value && h == W - 1) ? !aLow : aLow;  // the sign bit counts negatively
        }
        a = (I)x;
        b = (I)y;
    }
};
template <typename I>
static Pair<I> anyPair(int stride) {
    const int W = sizeof(I) * 8;
    int k = va_choice((W + stride - 1) / stride + 1);
    if (k == 0) return Pair<I>(-1, false);
    int h = (k - 1) * stride;
    if (h >= W - stride) h = W - 1;
    return Pair<I>(h, va_choice(2));
}
// one of a few fixed pairs: used where there are many coordinates
template <typename I>
static Pair<I> fixedPair(bool wide) {
    static const int A[12] = {5, -3, 7, 0, 96, 2, 3, 64, -128, 1, -1, 6}, B[12] = {5, 4, 3, 1, 127, 3, 15, 63, 127, 2, -2, 9};
    static const int H[12] = {-1, -2, 2, 0, 4, 0, 3, 6, -2, 1, 0, 3};
    int k = va_choice(wide ? 12 : 5);
    Pair<I> p(-1, false);
    p.a = (I)A[k];
    p.b = (I)B[k];
    p.h = H[k] == -2 ? (int)sizeof(I) * 8 - 1 : H[k];
    p.less = p.a < p.b;
    if (va_choice(2)) {
        I t = p.a;
        p.a = p.b;
        p.b = t;
        p.less = p.a < p.b;
    }
    return p;
}
#if !DIST
template <typename I, int D>
static void cmp(int stride) {
    I v[D], w[D];
    int best = -1, at = -1;
    bool less = false;
    for (int d = 0; d < D; d++) {
        Pair<I> p = stride ? anyPair<I>(stride) : fixedPair<I>(D < 3);
        v[d] = p.a;
        w[d] = p.b;
        if (p.h > best) best = p.h, at = d, less = p.less;
    }
    bool r = mortonCmpInt<I, D>(v, w);
    bool t = MortonTraits<I, D>::compare(v, w);
    bool q = mortonCmpInt<I, D>(w, v);
    va_assert(r == (best >= 0 && less), "the coordinate with the highest differing bit, the first on ties, decides the order");
    va_assert(t == r, "the traits class compares in the same order");
    va_assert(q == (best >= 0 && !less), "the order is antisymmetric, and only equal vectors are equivalent");
    va_reach("cmp");
}
extern "C" {
void spec_fix_i8_2() { cmp<int8_t, 2>(0); }
void spec_fix_u16_2() { cmp<uint16_t, 2>(0); }
void spec_fix_i32_2() { cmp<int32_t, 2>(0); }
void spec_fix_i64_2() { cmp<int64_t, 2>(0); }
void spec_many_i8_5() { cmp<int8_t, 5>(0); }
void spec_many_i32_5() { cmp<int32_t, 5>(0); }
void spec_i8_1() { cmp<int8_t, 1>(1); }
void spec_i8_2() { cmp<int8_t, 2>(1); }
void spec_i8_3() { cmp<int8_t, 3>(va_tier() ? 1 : 2); }
void spec_u8_2() { cmp<uint8_t, 2>(1); }
void spec_u8_3() { cmp<uint8_t, 3>(va_tier() ? 1 : 2); }
void spec_i16_2() { cmp<int16_t, 2>(1); }
void spec_u16_2() { cmp<uint16_t, 2>(1); }
void spec_i32_1() { cmp<int32_t, 1>(1); }
void spec_i32_2() { cmp<int32_t, 2>(va_tier() ? 1 : 2); }
void spec_i32_3() { cmp<int32_t, 3>(va_tier() ? 6 : 11); }
void spec_u32_2() { cmp<uint32_t, 2>(va_tier() ? 1 : 3); }
void spec_u32_3() { cmp<uint32_t, 3>(va_tier() ? 7 : 13); }
void spec_i64_2() { cmp<int64_t, 2>(va_tier() ? 1 : 3); }
void spec_u64_2() { cmp<uint64_t, 2>(va_tier() ? 1 : 3); }
void spec_thorough_i64_3() { cmp<int64_t, 3>(31); }
void spec_i8_4() { cmp<int8_t, 4>(va_tier() ? 3 : 7); }
}
#else
template <typename I>
static void block() {  // smallest aligned power-of-two block holding both numbers
    typedef typename std::make_unsigned<I>::type U;
    const int W = sizeof(I) * 8;
    Pair<I> p = anyPair<I>(1);
    I low, mid, upp;
    int level = intervalPow2Int<I>(p.a, p.b, low, mid, upp);
    va_assert(level == p.h + 1, "the level is one more than the highest differing bit, zero for equal numbers");
    if (p.h < 0) va_assert(low == p.a && mid == p.a && upp == p.a, "the block of equal numbers is that number");
    else if (p.h == W - 1) {
        va_assert(low == std::numeric_limits<I>::min() && upp == std::numeric_limits<I>::max(), "numbers differing in the top bit span the whole range");
        va_assert(mid == (std::is_signed<I>::value ? (I)0 : (I)((U)1 << (W - 1))), "the middle starts the upper half of the block");
    } else {
        U mask = (U)(((U)1 << level) - 1);
        va_assert((U)low == (U)((U)p.a & (U)~mask), "the block starts at a multiple of its size");
        va_assert((U)low == (U)((U)p.b & (U)~mask), "the block holds both numbers");
        va_assert((U)upp == (U)((U)low | mask), "the block ends just before the next multiple of its size");
        va_assert((U)mid == (U)((U)low | (U)((U)1 << p.h)), "the middle starts the upper half of the block");
    }
    va_reach("block");
}
template <typename I, int D>
static void split(int stride) {
    I v[D], w[D], low[D], mid[D], upp[D];
    int hs[D], best = -1, at = 0;
    for (int d = 0; d < D; d++) {
        Pair<I> p = stride ? anyPair<I>(stride) : fixedPair<I>(D < 3);
        v[d] = p.a;
        w[d] = p.b;
        hs[d] = p.h;
        if (p.h > best) best = p.h, at = d;
    }
    va_assert((mortonDistanceInt<I, D>(v, w)) == best + 1, "the distance is the largest level of the coordinates");
    va_assert((MortonTraits<I, D>::distance(w, v)) == best + 1, "the distance is symmetric");
    MortonTraits<I, D>::split(v, w, low, mid, upp);
    for (int d = 0; d < D; d++) {
        I l, m, u;
        intervalPow2Int<I>(v[d], w[d], l, m, u);
        va_assert(low[d] == l && upp[d] == u, "the split box bounds are the blocks of the coordinates");
        va_assert(mid[d] == (d == at ? m : l), "the box is split in the coordinate that decides the order, and only there");
    }
    va_reach("split");
}
extern "C" {
void spec_split_fix() { split<int32_t, 2>(0); }
void spec_many_i8_4() { split<int8_t, 4>(0); }
void spec_many_u32_5() { split<uint32_t, 5>(0); }
void spec_block_i8() { block<int8_t>(); }
void spec_block_u8() { block<uint8_t>(); }
void spec_block_i16() { block<int16_t>(); }
void spec_block_u16() { block<uint16_t>(); }
void spec_block_i32() { block<int32_t>(); }
void spec_block_u32() { block<uint32_t>(); }
void spec_block_i64() { block<int64_t>(); }
void spec_block_u64() { block<uint64_t>(); }
void spec_split_i8_2() { split<int8_t, 2>(1); }
void spec_split_u8_3() { split<uint8_t, 3>(va_tier() ? 1 : 2); }
void spec_split_i32_2() { split<int32_t, 2>(va_tier() ? 1 : 3); }
void spec_split_i32_3() { split<int32_t, 3>(va_tier() ? 3 : 7); }
void spec_split_u32_2() { split<uint32_t, 2>(va_tier() ? 1 : 3); }
void spec_split_i64_2() { split<int64_t, 2>(va_tier() ? 1 : 5); }
void spec_split_u64_2() { split<uint64_t, 2>(va_tier() ? 1 : 5); }
void spec_split_i16_2() { split<int16_t, 2>(1); }
}
#endif
