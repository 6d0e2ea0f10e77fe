// Spec: Morton order of floating-point vectors (C13); enclosing blocks and splits (C36, -DBLOCK=1).
// Pairs of numbers are built from their bits: the position of the highest digit in which the (two's complement,
// infinite) binary expansions differ is known, every digit it does not depend on is unknown.
#include "va.h"
#include <cstring>
#include <limits>
#include <rofl/common/morton_sort.h>
using namespace rofl;
#ifndef BLOCK
#define BLOCK 0
#endif
template <typename F> struct Fmt;
template <> struct Fmt<float> { typedef uint32_t U; static const int MB = 23, EB = 8, BIAS = 127; };
template <> struct Fmt<double> { typedef uint64_t U; static const int MB = 52, EB = 11, BIAS = 1023; };
static const int LOW = -100000, HIGH = 100000;
template <typename F>
static F make(bool s, int be, typename Fmt<F>::U m) {
    typedef typename Fmt<F>::U U;
    U p = (U)(((U)(s ? 1 : 0) << (Fmt<F>::MB + Fmt<F>::EB)) | ((U)be << Fmt<F>::MB) | m);
    F f;
    std::memcpy(&f, &p, sizeof(F));
    return f;
}
// n bits ending with exactly t ones (t == n: all ones)
template <typename U>
static U ones(int n) { return n <= 0 ? (U)0 : (U)((((U)1 << (n - 1)) - 1) * 2 + 1); }
template <typename U>
static void tail(int n, int t, U& x, U& x1, bool& carry) {  // x and x+1 modulo 2^n
    carry = t >= n;
    if (carry) {
        x = ones<U>(n);
        x1 = 0;
        return;
    }
    U hi = n - t - 1 > 0 ? (U)((U)va_bits(n - t - 1) << (t + 1)) : (U)0;
    x = (U)(hi | ones<U>(t));
    x1 = (U)(hi | ((U)1 << t));
}
static bool lite;  // coordinates of longer vectors: one representative of each choice
static int pick(int n, bool full) {  // 0..n
    if (lite) return n / 2;
    if (full || n < 3) return va_choice(n + 1);
    int k = va_choice(4);
    return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n - 1 : n;
}
static int ch(int n) { return lite ? n / 2 : va_choice(n); }
template <typename F>
struct Pair {
    F a, b;
    int level;
    bool less;
    void set(F x, F y, int l, bool xLess) {
        level = l;
        if (ch(2)) a = x, b = y, less = xLess;
        else a = y, b = x, less = l > LOW && !xLess;
    }
};
enum { EQ, ZEROS, SIGNS, POS, POSX, NEG, NEGX, NEGP, NEGQ, KINDS };
template <typename F>
static Pair<F> build(int kind, bool full, int exps) {
    typedef Fmt<F> T;
    typedef typename T::U U;
    const int MB = T::MB, BIAS = T::BIAS;
    Pair<F> p;
    int es[6] = {BIAS, 1, 2, BIAS + 1, 2 * BIAS, BIAS - 1};
    switch (kind) {
        case EQ: {
            F x = make<F>(ch(2), ch(2) ? BIAS : 0, (U)((U)va_bits(MB - 1) * 2 + 1));
            if (!lite && va_choice(2)) x = make<F>(ch(2), ch(2) ? BIAS : 0, (U)va_bits(MB));
            p.set(x, x, LOW, false);
            break;
        }
        case ZEROS: p.set(make<F>(true, 0, 0), make<F>(ch(2), 0, 0), LOW, false); break;
        case SIGNS: {
            int e = ch(3);
            F x = make<F>(true, e == 0 ? 0 : e == 1 ? 1 : BIAS, e ? (U)va_bits(MB) : (U)((U)va_bits(MB - 1) * 2 + 1));
            e = ch(4);
            F y = e == 3 ? make<F>(true, 0, 0) : make<F>(false, e == 0 ? 0 : e == 1 ? 1 : BIAS + 3, (U)va_bits(MB));
            p.set(x, y, HIGH, true);
            break;
        }
        case POS: {  // same exponent, fractions first differ at digit h
            int be = ch(3) ? es[ch(exps)] : 0, h = full ? ch(MB) : ch(3) * ((MB - 1) / 2);
            U pre = h + 1 < MB ? (U)((U)va_bits(MB - 1 - h) << (h + 1)) : (U)0;
            U one = (U)((U)1 << h);
            F x = make<F>(false, be, (U)(pre | (h ? (U)va_bits(h) : (U)0)));
            F y = make<F>(false, be, (U)(pre | one | (h ? (U)va_bits(h) : (U)0)));
            p.set(x, y, (be ? be : 1) - BIAS - MB + h, true);
            break;
        }
        case POSX: {  // different exponents
            int be = es[ch(exps)], k = ch(4);
            int b2 = k == 0 ? be - 1 : k == 1 ? 0 : k == 2 ? (be > MB + 2 ? be - MB - 2 : 0) : (be > 3 ? be - 3 : 0);
            F x = make<F>(b2 == 0 && k == 2, b2, b2 == 0 && k == 2 ? (U)0 : (U)va_bits(MB));
            p.set(x, make<F>(false, be, (U)va_bits(MB)), be - BIAS, true);
            break;
        }
        case NEG: {  // same exponent: the expansions of -A and -B differ as those of A-1 and B-1
            int be = ch(3) ? es[ch(exps)] : 0;
            if (be && !ch(4)) {  // B is the power of two: B-1 lacks the leading digit
                int q = full ? ch(MB) : ch(3) * ((MB - 1) / 2);
                U m = (U)(((q + 1 < MB ? (U)va_bits(MB - 1 - q) : (U)0) * 2 + 1) << q);
                p.set(make<F>(true, be, m), make<F>(true, be, 0), be - BIAS, true);
                break;
            }
            int h = full ? ch(MB) : ch(3) * ((MB - 1) / 2);
            int n = MB - 1 - h;
            U pre, pre1, la, la1, lb, lb1;
            bool cp, ca, cb;
            int ta = pick(h, false);
            tail<U>(h, ta, la, la1, ca);
            tail<U>(h, pick(h, false), lb, lb1, cb);
            if (ca) {
                int tp = pick(n, false);
                if (tp >= n) va_assume(false);
                tail<U>(n, tp, pre, pre1, cp);
            } else
                pre = n > 0 ? (U)va_bits(n) : (U)0, pre1 = pre;
            U one = (U)((U)1 << h);
            U A = ca ? (U)(pre1 << (h + 1)) : (U)((U)(pre << (h + 1)) | one | la1);
            U B = (U)((U)(pre << (h + 1)) | (cb ? one : (U)0) | lb1);
            p.set(make<F>(true, be, A), make<F>(true, be, B), (be ? be : 1) - BIAS - MB + h, true);
            break;
        }
        case NEGX: {  // different exponents, the larger magnitude is not a power of two
            int be = es[ch(exps)], k = ch(4);
            int b2 = k == 0 ? be - 1 : k == 1 ? 0 : k == 2 ? (be > MB + 2 ? be - MB - 2 : 0) : (be > 3 ? be - 3 : 0);
            int q = full ? ch(MB) : ch(3) * ((MB - 1) / 2), r = full ? ch(MB) : ch(2) * (MB - 1);
            U m = (U)(((q + 1 < MB ? (U)va_bits(MB - 1 - q) : (U)0) * 2 + 1) << q);
            U n = b2 && ch(2) ? (U)0 : (U)(((r + 1 < MB ? (U)va_bits(MB - 1 - r) : (U)0) * 2 + 1) << r);
            p.set(make<F>(true, be, m), make<F>(true, b2, n), be - BIAS, true);
            break;
        }
        case NEGP: {  // the larger magnitude is a power of two, the other one at most half of it
            int be = es[2 + ch(exps > 3 ? 4 : 1)], k = ch(4);
            int b2 = k == 0 ? be - 2 : k == 1 ? be - 1 : k == 2 ? (be > MB + 2 ? be - MB - 2 : 0) : (be > 3 ? be - 3 : 0);
            int r = full ? ch(MB) : ch(2) * (MB - 1);
            U n = k == 1 || (b2 && ch(2)) ? (U)0 : (U)(((r + 1 < MB ? (U)va_bits(MB - 1 - r) : (U)0) * 2 + 1) << r);
            p.set(make<F>(true, be, 0), make<F>(true, b2, n), be - BIAS - 1, true);
            break;
        }
        default: {  // ... the other one between half of it and the whole
            int be = es[1 + ch(exps > 3 ? 5 : 1)];
            bool sub = be == 1;  // smallest normal against a subnormal: no leading digit
            int z = full ? ch(MB) : ch(3) * ((MB - 1) / 2);
            U l, l1;
            bool c;
            tail<U>(z, pick(z, false), l, l1, c);
            U ups = (U)(ones<U>(MB) & (U)~ones<U>(z + 1));
            U m = (U)(ups | (c ? (U)((U)1 << z) : (U)0) | l1);
            p.set(make<F>(true, be, 0), make<F>(true, be - 1, m), (sub ? 1 : be - 1) - BIAS - MB + z, true);
        }
    }
    return p;
}
#if !BLOCK
template <typename F, int D>
static void check(const Pair<F>* ps) {
    F v[D], w[D];
    int best = LOW;
    bool less = false;
    for (int d = 0; d < D; d++) {
        v[d] = ps[d].a;
        w[d] = ps[d].b;
        if (ps[d].level > best) best = ps[d].level, less = ps[d].less;
    }
    bool r = mortonCmpFloat<F, D>(v, w), q = mortonCmpFloat<F, D>(w, v), t = MortonTraits<F, D>::compare(v, w);
    va_assert(r == (best > LOW && less), "the coordinate differing in the highest binary digit, the first on ties, decides the order");
    va_assert(q == (best > LOW && !less), "the order is antisymmetric, and only equal vectors are equivalent");
    va_assert(t == r, "the traits class compares in the same order");
    int want = best == HIGH ? (int)FloatTraits<F>::EXPONENT_MAX : best < -Fmt<F>::BIAS ? -Fmt<F>::BIAS : best;
    va_assert((mortonDistanceFloat<F, D>(v, w)) == want && (MortonTraits<F, D>::distance(w, v)) == want, "the distance is the exponent of the highest differing digit");
    va_reach("check");
}
template <typename F>
static void one(int kind) {
    bool full = va_tier() || kind == POS || kind == NEGQ || (kind == NEG && sizeof(F) == 4);
    Pair<F> p[1] = {build<F>(kind, full, 6)};
    check<F, 1>(p);
}
template <typename F>
static Pair<F> light() {
    static const int ks[6] = {EQ, POS, NEG, NEGQ, SIGNS, POSX};
    lite = true;
    Pair<F> p = build<F>(ks[va_choice(6)], false, 2);
    lite = false;
    if (va_choice(2)) {
        F t = p.a;
        p.a = p.b;
        p.b = t;
        p.less = p.level > LOW && !p.less;
    }
    return p;
}
template <typename F>
static void two(int kind) {
    Pair<F> p[2];
    bool sw = va_choice(2);
    p[sw] = build<F>(kind, false, va_tier() ? 3 : 1);
    p[!sw] = light<F>();
    check<F, 2>(p);
}
template <typename F>
static void three() {
    Pair<F> p[3];
    for (int d = 0; d < 3; d++) p[d] = light<F>();
    check<F, 3>(p);
}
// many coordinates, each out of a few pairs with the digit in which they differ
template <typename F, int D>
static void many() {
    static const F A[5] = {5, -1.5, 3, 0.75, 8}, Bv[5] = {6, -1.75, 3, -0.5, 9};
    static const int L[5] = {1, -1, LOW, HIGH, 0};
    static const bool S[5] = {true, false, false, false, true};
    Pair<F> p[D];
    for (int d = 0; d < D; d++) {
        int k = va_choice(5);
        p[d].a = A[k];
        p[d].b = Bv[k];
        p[d].level = L[k];
        p[d].less = S[k];
    }
    check<F, D>(p);
}
#define E(name, F)                                \
    void spec_##name##_eq() { one<F>(EQ); }       \
    void spec_##name##_zeros() { one<F>(ZEROS); } \
    void spec_##name##_signs() { one<F>(SIGNS); } \
    void spec_##name##_pos() { one<F>(POS); }     \
    void spec_##name##_posx() { one<F>(POSX); }   \
    void spec_##name##_neg() { one<F>(NEG); }     \
    void spec_##name##_negx() { one<F>(NEGX); }   \
    void spec_##name##_negp() { one<F>(NEGP); }   \
    void spec_##name##_negq() { one<F>(NEGQ); }   \
    void spec_##name##2_pos() { two<F>(POS); }    \
    void spec_##name##2_posx() { two<F>(POSX); }  \
    void spec_##name##2_neg() { two<F>(NEG); }    \
    void spec_##name##2_negq() { two<F>(NEGQ); }  \
    void spec_##name##2_negp() { two<F>(NEGP); }  \
    void spec_##name##2_signs() { two<F>(SIGNS); }
extern "C" {
E(f, float)
E(d, double)
void spec_many5() { many<float, 5>(); }
void spec_many6() { many<double, 6>(); }
void spec_f3() { three<float>(); }
void spec_d3() { three<double>(); }
}
#else
template <typename F>
static bool same(F x, F y) {
    typename Fmt<F>::U p, q;
    std::memcpy(&p, &x, sizeof(F));
    std::memcpy(&q, &y, sizeof(F));
    return p == q;
}
// two numbers of the same sign (or of different signs) with the block that holds them
template <typename F>
struct Box {
    F a, b, low, mid, upp;
    int level;
};
template <typename F>
static Box<F> box(int kind, bool full) {
    typedef Fmt<F> T;
    typedef typename T::U U;
    const int MB = T::MB, BIAS = T::BIAS;
    int es[6] = {BIAS, 1, 2, BIAS + 1, 2 * BIAS, BIAS - 1};
    int exps = full ? 6 : 2;
    Box<F> x;
    bool neg = kind < 3 ? ch(2) : false;
    if (kind == 0) {  // equal
        x.a = x.b = x.low = x.mid = x.upp = make<F>(neg, ch(2) ? 0 : es[ch(exps)], (U)va_bits(MB));
        x.level = LOW;
        return x;
    }
    if (kind == 1) {  // same exponent, fractions first differ at digit h
        int be = ch(3) ? es[ch(exps)] : 0, h = full ? ch(MB) : ch(3) * ((MB - 1) / 2);
        U pre = h + 1 < MB ? (U)((U)va_bits(MB - 1 - h) << (h + 1)) : (U)0;
        U half = (U)((U)1 << h);
        x.a = make<F>(neg, be, (U)(pre | (h ? (U)va_bits(h) : (U)0)));
        x.b = make<F>(neg, be, (U)(pre | half | (h ? (U)va_bits(h) : (U)0)));
        x.low = make<F>(neg, be, pre);
        x.mid = make<F>(neg, be, (U)(pre | half));
        x.upp = make<F>(neg, be, (U)(pre | ones<U>(h + 1)));
        x.level = (be ? be : 1) - BIAS - MB + h;
    } else if (kind == 2) {  // different exponents
        // every difference of exponents up to beyond the width of the fraction and of the word
        int be = es[ch(exps)], k = full ? ch(MB + 20) : ch(4);
        int diff = k == 0 ? 1 : k == 1 ? be : full ? k : k == 2 ? MB + 2 : 3;
        int b2 = be > diff ? be - diff : 0;
        x.a = make<F>(neg, b2, b2 == 0 && k == 1 ? (U)0 : (U)va_bits(MB));
        x.b = make<F>(neg, be, (U)va_bits(MB));
        x.low = 0;
        x.mid = make<F>(neg, be, 0);
        x.upp = make<F>(neg, be, ones<U>(MB));
        x.level = be - BIAS;
    } else {  // different signs
        x.a = make<F>(true, es[ch(exps)], (U)va_bits(MB));
        x.b = make<F>(false, ch(2) ? 0 : es[ch(exps)], (U)va_bits(MB));
        x.low = std::numeric_limits<F>::lowest();
        x.upp = std::numeric_limits<F>::max();
        x.mid = 0;
        x.level = HIGH;
    }
    if (neg) {
        F t = x.low;
        x.low = x.upp;
        x.upp = t;
    }
    if (ch(2)) {
        F t = x.a;
        x.a = x.b;
        x.b = t;
    }
    return x;
}
template <typename F>
static bool is(F got, F want) { return same(got, want) || (want == 0 && got == 0); }
template <typename F>
static void block(int kind) {
    Box<F> x = box<F>(kind, true);
    F low, mid, upp;
    int l = intervalPow2Float<F>(x.a, x.b, low, mid, upp);
    va_assert(is(low, x.low), "the block starts at the multiple of its size not above the numbers");
    va_assert(is(upp, x.upp), "the block ends at the last number before the next multiple of its size");
    va_assert(is(mid, x.mid), "the middle divides the block in two halves");
    F low2, mid2, upp2;
    int l2 = intervalPow2Float<F>(x.b, x.a, low2, mid2, upp2);
    va_assert(l == l2 && is(low2, x.low) && is(upp2, x.upp) && is(mid2, x.mid), "the block does not depend on the order of the numbers");
    va_reach("block");
}
template <typename F, int D>
static void split() {
    F v[D], w[D], low[D], mid[D], upp[D];
    Box<F> x[D];
    int best = LOW, at = 0;
    bool free = D < 3;
    for (int d = 0; d < D; d++) {
        lite = d > 0 && !free && D > 2;
        x[d] = box<F>(va_choice(4), false);
        lite = false;
        v[d] = x[d].a;
        w[d] = x[d].b;
        if (x[d].level > best) best = x[d].level, at = d;
    }
    MortonTraits<F, D>::split(v, w, low, mid, upp);
    for (int d = 0; d < D; d++) {
        va_assert(is(low[d], x[d].low) && is(upp[d], x[d].upp), "the split box bounds are the blocks of the coordinates");
        va_assert(is(mid[d], d == at ? x[d].mid : x[d].low), "the box is split in the coordinate with the highest level, the first on ties, and only there");
    }
    va_reach("split");
}
// many coordinates, each out of a few pairs of numbers
template <typename F, int D>
static void many() {
    static const F A[4] = {5, -1.5, 3, 0.75}, Bv[4] = {6, -1.75, 3, -0.5};
    F v[D], w[D], low[D], mid[D], upp[D];
    int at = 0, lev[4], best = 0;
    for (int k = 0; k < 4; k++) {
        F a, b, c;
        lev[k] = intervalPow2Float<F>(A[k], Bv[k], a, b, c);
    }
    for (int d = 0; d < D; d++) {
        int k = va_choice(4);
        v[d] = A[k];
        w[d] = Bv[k];
        if (d == 0 || lev[k] > best) best = lev[k], at = d;
    }
    MortonTraits<F, D>::split(v, w, low, mid, upp);
    for (int d = 0; d < D; d++) {
        F a, b, c;
        intervalPow2Float<F>(v[d], w[d], a, b, c);
        va_assert(is(low[d], a) && is(upp[d], c), "the split box bounds are the blocks of the coordinates");
        va_assert(is(mid[d], d == at ? b : a), "the box is split in the coordinate with the highest level, the first on ties, and only there");
    }
}
extern "C" {
void spec_many5() { many<float, 5>(); }
void spec_many6() { many<double, 6>(); }
void spec_fblock0() { block<float>(0); }
void spec_fblock1() { block<float>(1); }
void spec_fblock2() { block<float>(2); }
void spec_fblock3() { block<float>(3); }
void spec_dblock0() { block<double>(0); }
void spec_dblock1() { block<double>(1); }
void spec_dblock2() { block<double>(2); }
void spec_dblock3() { block<double>(3); }
void spec_fsplit2() { split<float, 2>(); }
void spec_dsplit2() { split<double, 2>(); }
void spec_fsplit3() { split<float, 3>(); }
}
#endif
