// Spec: leading zeros and floor/ceil powers of two, every width, every argument.
#include "va.h"
#include <rofl/common/bit_manip.h>
using namespace rofl;

// every w-bit x is 0, or has a highest set bit p and arbitrary lower bits
template <typename U, typename N, typename F>
static void lead(int w, N nlz, F flp2) {
    int p = va_choice(w + 1) - 1;
    U x = 0;
    if (p >= 0) x = (U)((((U)1) << p) | (U)va_bits(p));
    va_assert((long)nlz(x) == w - 1 - p, "leading-zero count equals width minus position of the highest set bit");
    U f = flp2(x);
    U want = p < 0 ? (U)0 : (U)(((U)1) << p);
    va_assert(f == want, "floor power of two is the highest set bit");
    va_reach("lead");
}
// every x >= 1 is a power of two, or has highest bit p and lowest set bit q < p
template <typename U, typename F>
static void ceilp(int w, F clp2) {
    int p = va_choice(w);
    int q = va_choice(p + 1);
    U x = (U)(((U)1) << p);
    if (q < p) {
        x = (U)(x | (U)(((U)1) << q));
        if (p - q - 1 > 0) x = (U)(x | (U)((U)va_bits(p - q - 1) << (q + 1)));
    }
    U want = q == p ? x : (p + 1 < w ? (U)(((U)1) << (p + 1)) : (U)0);
    if (q < p && p == w - 1) return;  // the power of two is not representable
    va_assert(clp2(x) == want, "ceil power of two is the smallest power of two not below the argument");
    va_reach("ceil");
}
extern "C" void spec_lead8() { lead<uint8_t>(8, nlz8, flp2u8); }
extern "C" void spec_lead16() { lead<uint16_t>(16, nlz16, flp2u16); }
extern "C" void spec_lead32() { lead<uint32_t>(32, nlz32, flp2u32); }
extern "C" void spec_lead64() { lead<uint64_t>(64, nlz64, flp2u64); }
extern "C" void spec_ceil8() { ceilp<uint8_t>(8, clp2u8); }
extern "C" void spec_ceil16() { ceilp<uint16_t>(16, clp2u16); }
extern "C" void spec_ceil32() { ceilp<uint32_t>(32, clp2u32); }
extern "C" void spec_ceil64() { ceilp<uint64_t>(64, clp2u64); }
extern "C" void spec_ceil_zero() {
    va_assert(clp2u8(0) == 0 && clp2u16(0) == 0 && clp2u32(0) == 0 && clp2u64(0) == 0, "ceil power of two of zero is zero");
}
