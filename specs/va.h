// Vocabulary of the specifications analysed by roflai. None of these functions has a body:
// the abstract interpreter gives them their meaning.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
int va_choice(int n);                                   // trace partition: one abstract trace per value 0..n-1
long va_int(long lo, long hi);                          // any integer in [lo,hi]
double va_real(double lo, double hi);                   // any real in [lo,hi]
uint64_t va_bits(int w);                                // any w-bit pattern
void va_assume(bool c);                                 // restrict the partition
void va_assert(bool c, const char* msg);                // obligation
void va_near(double a, double b, double tol, const char* msg);  // obligation |a-b| <= tol
void va_ge(double a, double b, double tol, const char* msg);    // obligation a >= b - tol
void va_reach(const char* what);                        // must be reached by some trace
void va_exit_ok(int ok);                                // termination / exceptions are (1) or are not (0) acceptable from here
int va_tier();                                          // 0 quick, 1 thorough
void va_long(long steps);                               // traces of this entry may take so many steps (a large input)
long va_conc(long v);                                   // partition on every value of v
void va_print(long v);
void va_printd(double v);
int va_isconst(long v);
int va_isconstd(double v);
}
