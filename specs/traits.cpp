// Spec: typed integer helpers (C09) and floating-point decomposition (C10, -DFLT=1).
#include "va.h"
#include <limits>
#include <type_traits>
#include <rofl/common/numeric_traits.h>
using namespace rofl;
#ifndef FLT
#define FLT 0
#endif
#if !FLT
// magnitude m of w bits: 0, or highest set bit p; below it nothing, or lowest set bit q and arbitrary bits between
template <typename U>
struct Mag {
    U m = 0;
    int p = -1;
    bool pow2 = false;
    Mag(int w) {
        p = va_choice(w + 1) - 1;
        if (p < 0) return;
        int q = va_choice(p + 1);
        m = (U)((U)1 << p);
        pow2 = q == p;
        if (!pow2) {
            m = (U)(m | (U)((U)1 << q));
            if (p - q - 1 > 0) m = (U)(m | (U)((U)va_bits(p - q - 1) << (q + 1)));
        }
    }
};
template <typename I>
static void traits() {
    typedef typename std::make_unsigned<I>::type U;
    const int W = sizeof(I) * 8;
    bool sgn = std::is_signed<I>::value;
    Mag<U> g(sgn ? W - 1 : W);
    bool neg = sgn && g.p >= 0 && va_choice(2);
    I x = neg ? (I)(-(I)g.m) : (I)g.m;
    va_assert((int)nlz<I>(x) == (neg ? 0 : W - 1 - g.p), "leading-zero count of the typed integer");
    if (g.p >= 0) va_assert((int)log2Mod<I>(x) == g.p, "log2Mod is the position of the highest bit of the magnitude");
    else va_assert(log2Mod<I>(x) == 0, "log2Mod of zero is zero");
    U below = g.p < 0 ? (U)0 : (U)((U)1 << g.p);                                     // largest power of two <= magnitude
    bool fits = g.pow2 || g.p < 0 || g.p + 1 < W - (sgn && !neg ? 1 : 0);            // is the power above representable
    U above = g.pow2 || g.p < 0 ? below : fits ? (U)((U)1 << (g.p + 1)) : (U)0;      // smallest power of two >= magnitude
    if (!neg) {
        va_assert((U)floorPow2<I>(x) == below, "floorPow2 is the largest power of two not above the argument");
        if (fits) va_assert((U)ceilPow2<I>(x) == above, "ceilPow2 is the smallest power of two not below the argument");
    } else {
        va_assert((U)ceilPow2<I>(x) == (U)(0 - below), "ceilPow2 of a negative number is the opposite of the power of two below its magnitude");
        if (fits) va_assert((U)floorPow2<I>(x) == (U)(0 - above), "floorPow2 of a negative number is the opposite of the power of two above its magnitude");
    }
    va_assert(IntegerTraits<I>::BIT_NUM == W, "declared width is the width of the type");
    va_reach("traits");
}
extern "C" {
void spec_i8() { traits<int8_t>(); }
void spec_u8() { traits<uint8_t>(); }
void spec_i16() { traits<int16_t>(); }
void spec_u16() { traits<uint16_t>(); }
void spec_i32() { traits<int32_t>(); }
void spec_u32() { traits<uint32_t>(); }
void spec_i64() { traits<int64_t>(); }
void spec_u64() { traits<uint64_t>(); }
}
#else
template <typename F, typename U>
static F fromBits(U u) {
    union {
        U u;
        F f;
    } c;
    c.u = u;
    return c.f;
}
template <typename F, typename U>
static U toBits(F f) {
    union {
        U u;
        F f;
    } c;
    c.f = f;
    return c.u;
}
// every bit pattern: sign, biased exponent (all values, symbolic bits) and mantissa
template <typename F, typename U, typename S, int MB, int EB>
static void decomp() {
    typedef FloatTraits<F> FT;
    U m = (U)va_bits(MB), s = (U)va_choice(2);
    U e = (U)va_bits(EB);
    U pat = (U)((s << (MB + EB)) | (e << MB) | m);
    F f = fromBits<F, U>(pat);
    S mo, eo;
    bool so;
    FT::decompose(f, mo, eo, so);
    const S bias = ((S)1 << (EB - 1)) - 1;
    va_assert((U)mo == m, "the mantissa is the fraction field");
    va_assert(so == (s == 1), "the sign flag is the sign bit");
    va_assert(eo + bias == (S)e, "the exponent is the biased exponent minus the bias");
    F g = FT::compose(mo, eo, so);
    va_assert((toBits<F, U>(g)) == pat, "compose inverts decompose bit for bit");
    va_assert(FT::toInt(f) == pat, "toInt is the bit pattern");
    va_reach("decomp");
}
// value reading: normal numbers equal (-1)^s (1 + m 2^-MB) 2^e, checked field-wise on composed values
template <typename F, typename U, typename S, int MB, int EB>
static void comp() {
    typedef FloatTraits<F> FT;
    const S bias = ((S)1 << (EB - 1)) - 1;
    S m = (S)va_bits(MB);
    int be = va_choice(6);
    S e = be == 0 ? -bias : be == 1 ? -bias + 1 : be == 2 ? -1 : be == 3 ? 0 : be == 4 ? 1 : bias;
    bool s = va_choice(2);
    F f = FT::compose(m, e, s);
    U want = (U)(((U)(s ? 1 : 0) << (MB + EB)) | ((U)(e + bias) << MB) | (U)m);
    va_assert((toBits<F, U>(f)) == want, "compose places sign, exponent and mantissa in their fields");
    S mo, eo;
    bool so;
    FT::decompose(f, mo, eo, so);
    va_assert(mo == m && eo == e && so == s, "decompose inverts compose");
    va_reach("comp");
}
template <typename F, typename S, int MB, int EB>
static void constants() {
    typedef FloatTraits<F> FT;
    typedef typename std::make_unsigned<S>::type U;
    const U one = 1;
    va_assert(FT::BIT_NUM == 1 + MB + EB && FT::MANTISSA_BITS == MB && FT::EXPONENT_BITS == EB, "declared field widths are those of the format");
    va_assert(FT::EXPONENT_BIAS == (1 << (EB - 1)) - 1, "declared bias is that of the format");
    va_assert((U)FT::MANTISSA_MASK == (one << MB) - 1 && (U)FT::MANTISSA_IMPLICIT_BIT == one << MB, "declared mantissa masks are those of the format");
    va_assert((U)FT::EXPONENT_MASK == ((one << EB) - 1) << MB, "declared exponent mask is that of the format");
    va_assert((U)FT::SIGN_MASK == one << (MB + EB), "declared sign mask is that of the format");
    va_assert((long)FT::EXPONENT_MIN == -(long)FT::EXPONENT_BIAS && (long)FT::EXPONENT_MAX == (1 << EB) - 1 - (long)FT::EXPONENT_BIAS, "declared exponent range is that of the format");
    // seven is 1.11b * 2^2
    S m, e;
    bool s;
    FT::decompose((F)7, m, e, s);
    va_assert((U)m == (U)3 << (MB - 2) && e == 2 && !s, "7 = 1.11b * 2^2");
    FT::decompose((F)-0.375, m, e, s);
    va_assert((U)m == (U)1 << (MB - 1) && e == -2 && s, "-0.375 = -1.1b * 2^-2");
    va_reach("constants");
}
extern "C" {
void spec_float() { decomp<float, uint32_t, int32_t, 23, 8>(); }
void spec_double() { decomp<double, uint64_t, int64_t, 52, 11>(); }
void spec_float_c() { comp<float, uint32_t, int32_t, 23, 8>(); }
void spec_double_c() { comp<double, uint64_t, int64_t, 52, 11>(); }
void spec_const_f() { constants<float, int32_t, 23, 8>(); }
void spec_const_d() { constants<double, int64_t, 52, 11>(); }
}
#endif
