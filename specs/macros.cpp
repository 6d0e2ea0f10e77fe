// C34: the logging and assertion macros. Model streams.
#include <rofl/common/macros.h>
#include <cstdlib>
#include <string>
#include "va.h"
#define ENTRY extern "C" __attribute__((used)) void
static std::string num(long v) { return va_model::fromI(v); }
static std::string where(int line) { return "macros.cpp," + num(line) + ": "; }
static int calls = 0;
static int ev(int v) {
    calls++;
    return v;
}
#define TXT(s) #s
static void same(int line, const std::string& body, int n) {
    va_assert(std::vaCout().text == where(line) + body + "\n", "the line printed has the file, the line, and every expression with its own value, in order");
    va_assert(calls == n, "every argument is evaluated exactly once");
}
static const int A = 11, B = -22, C = 33, D = 44, E = 55, F = 66, G = 77;
ENTRY spec_var() {
    switch (va_choice(9)) {
        case 0: ROFL_VAR1(ev(A)) same(__LINE__, "ev(A) 11", 1); break;
        case 1: ROFL_VAR2(ev(A), ev(B)) same(__LINE__, "ev(A) 11, ev(B) -22", 2); break;
        case 2: ROFL_VAR3(ev(A), ev(B), ev(C)) same(__LINE__, "ev(A) 11, ev(B) -22, ev(C) 33", 3); break;
        case 3: ROFL_VAR4(ev(A), ev(B), ev(C), ev(D)) same(__LINE__, "ev(A) 11, ev(B) -22, ev(C) 33, ev(D) 44", 4); break;
        case 4: ROFL_VAR5(ev(A), ev(B), ev(C), ev(D), ev(E)) same(__LINE__, "ev(A) 11, ev(B) -22, ev(C) 33, ev(D) 44, ev(E) 55", 5); break;
        case 5: ROFL_VAR6(ev(A), ev(B), ev(C), ev(D), ev(E), ev(F)) same(__LINE__, "ev(A) 11, ev(B) -22, ev(C) 33, ev(D) 44, ev(E) 55, ev(F) 66", 6); break;
        case 6: ROFL_VAR7(ev(A), ev(B), ev(C), ev(D), ev(E), ev(F), ev(G)) same(__LINE__, "ev(A) 11, ev(B) -22, ev(C) 33, ev(D) 44, ev(E) 55, ev(F) 66, ev(G) 77", 7); break;
        case 7: ROFL_VAR1(A << 1) same(__LINE__, "A << 1 22", 0); break;
        default: ROFL_MSG("n " << ev(A) << " end") same(__LINE__, "n 11 end", 1); break;
    }
    va_reach("printed");
}
// arguments that are whole expressions, at every place
ENTRY spec_expressions() {
    switch (va_choice(27)) {
        case 0: ROFL_VAR2(A << 1, B) same(__LINE__, "A << 1 22, B -22", 0); break;
        case 1: ROFL_VAR2(A, A << 1) same(__LINE__, "A 11, A << 1 22", 0); break;
        case 2: ROFL_VAR3(A << 1, B, C) same(__LINE__, "A << 1 22, B -22, C 33", 0); break;
        case 3: ROFL_VAR3(A, A << 1, C) same(__LINE__, "A 11, A << 1 22, C 33", 0); break;
        case 4: ROFL_VAR3(A, B, A << 1) same(__LINE__, "A 11, B -22, A << 1 22", 0); break;
        case 5: ROFL_VAR4(A << 1, B, C, D) same(__LINE__, "A << 1 22, B -22, C 33, D 44", 0); break;
        case 6: ROFL_VAR4(A, A << 1, C, D) same(__LINE__, "A 11, A << 1 22, C 33, D 44", 0); break;
        case 7: ROFL_VAR4(A, B, A << 1, D) same(__LINE__, "A 11, B -22, A << 1 22, D 44", 0); break;
        case 8: ROFL_VAR4(A, B, C, A << 1) same(__LINE__, "A 11, B -22, C 33, A << 1 22", 0); break;
        case 9: ROFL_VAR5(A << 1, B, C, D, E) same(__LINE__, "A << 1 22, B -22, C 33, D 44, E 55", 0); break;
        case 10: ROFL_VAR5(A, A << 1, C, D, E) same(__LINE__, "A 11, A << 1 22, C 33, D 44, E 55", 0); break;
        case 11: ROFL_VAR5(A, B, A << 1, D, E) same(__LINE__, "A 11, B -22, A << 1 22, D 44, E 55", 0); break;
        case 12: ROFL_VAR5(A, B, C, A << 1, E) same(__LINE__, "A 11, B -22, C 33, A << 1 22, E 55", 0); break;
        case 13: ROFL_VAR5(A, B, C, D, A << 1) same(__LINE__, "A 11, B -22, C 33, D 44, A << 1 22", 0); break;
        case 14: ROFL_VAR6(A << 1, B, C, D, E, F) same(__LINE__, "A << 1 22, B -22, C 33, D 44, E 55, F 66", 0); break;
        case 15: ROFL_VAR6(A, A << 1, C, D, E, F) same(__LINE__, "A 11, A << 1 22, C 33, D 44, E 55, F 66", 0); break;
        case 16: ROFL_VAR6(A, B, A << 1, D, E, F) same(__LINE__, "A 11, B -22, A << 1 22, D 44, E 55, F 66", 0); break;
        case 17: ROFL_VAR6(A, B, C, A << 1, E, F) same(__LINE__, "A 11, B -22, C 33, A << 1 22, E 55, F 66", 0); break;
        case 18: ROFL_VAR6(A, B, C, D, A << 1, F) same(__LINE__, "A 11, B -22, C 33, D 44, A << 1 22, F 66", 0); break;
        case 19: ROFL_VAR6(A, B, C, D, E, A << 1) same(__LINE__, "A 11, B -22, C 33, D 44, E 55, A << 1 22", 0); break;
        case 20: ROFL_VAR7(A << 1, B, C, D, E, F, G) same(__LINE__, "A << 1 22, B -22, C 33, D 44, E 55, F 66, G 77", 0); break;
        case 21: ROFL_VAR7(A, A << 1, C, D, E, F, G) same(__LINE__, "A 11, A << 1 22, C 33, D 44, E 55, F 66, G 77", 0); break;
        case 22: ROFL_VAR7(A, B, A << 1, D, E, F, G) same(__LINE__, "A 11, B -22, A << 1 22, D 44, E 55, F 66, G 77", 0); break;
        case 23: ROFL_VAR7(A, B, C, A << 1, E, F, G) same(__LINE__, "A 11, B -22, C 33, A << 1 22, E 55, F 66, G 77", 0); break;
        case 24: ROFL_VAR7(A, B, C, D, A << 1, F, G) same(__LINE__, "A 11, B -22, C 33, D 44, A << 1 22, F 66, G 77", 0); break;
        case 25: ROFL_VAR7(A, B, C, D, E, A << 1, G) same(__LINE__, "A 11, B -22, C 33, D 44, E 55, A << 1 22, G 77", 0); break;
        case 26: ROFL_VAR7(A, B, C, D, E, F, A << 1) same(__LINE__, "A 11, B -22, C 33, D 44, E 55, F 66, A << 1 22", 0); break;
    }
    va_reach("expression printed");
}
// values of any type and size: symbolic numbers reach the stream unchanged
ENTRY spec_values() {
    long v[7];
    for (int i = 0; i < 7; i++) v[i] = va_int(-1000000, 1000000);
    ROFL_VAR7(v[0], v[1], v[2], v[3], v[4], v[5], v[6])
    va_assert(va_model::log().ni == 7, "seven values are printed");
    for (int i = 0; i < 7; i++) va_assert(va_model::log().i[i] == v[i], "each value printed is that of its expression");
}
ENTRY spec_err() {
    ROFL_ERR("bad " << ev(A))
    va_assert(calls == 1 && std::vaCout().text.empty(), "an error message goes to the error stream only");
    va_assert(std::vaCerr().text == where(__LINE__ - 2) + "bad 11\n", "an error message has the file and the line");
}
// an assertion ends the program exactly when its condition is false
#define BODY(ASSERTION)                                                                       \
    ENTRY spec_##ASSERTION() {                                                                \
        long x = va_int(-100, 100), y = va_int(-100, 100);                                    \
        bool c = x < y;                                                                       \
        va_exit_ok(!c);                                                                       \
        int args = 0;                                                                         \
        auto count = [&](long v) { args++; return v; };                                       \
        (void)count;                                                                          \
        int conds = 0;                                                                        \
        auto cond = [&](bool b) { conds++; return b; };                                       \
        if (true) { ASSERTION##_CALL }                                                        \
        va_exit_ok(0);                                                                        \
        va_assert(x < y, "an assertion whose condition is false ends the program");           \
        va_assert(conds == 1, "the condition is evaluated once");                             \
        va_assert(args == 0, "nothing is printed when the condition holds");                  \
        va_assert(std::vaCout().text.empty() && std::vaCerr().text.empty(), "silence when the condition holds"); \
        va_reach("condition holds");                                                          \
    }
#define V0_CALL ROFL_ASSERT(cond(x < y))
#define V1_CALL ROFL_ASSERT_VAR1(cond(x < y), count(x))
#define V2_CALL ROFL_ASSERT_VAR2(cond(x < y), count(x), count(y))
#define V3_CALL ROFL_ASSERT_VAR3(cond(x < y), count(x), count(y), count(1))
#define V4_CALL ROFL_ASSERT_VAR4(cond(x < y), count(x), count(y), count(1), count(2))
#define V5_CALL ROFL_ASSERT_VAR5(cond(x < y), count(x), count(y), count(1), count(2), count(3))
#define P0_CALL ROFL_ASSERT(cond(x < y) || x == 1000)
BODY(V0)
BODY(V1)
BODY(V2)
BODY(V3)
BODY(V4)
BODY(V5)
BODY(P0)
ENTRY spec_plain0() {
    long x = va_int(-3, 3), y = va_int(-3, 3);
    va_exit_ok(x != y);
    ROFL_ASSERT(x == y)
    va_exit_ok(0);
    va_assert(x == y, "an assertion whose condition is false ends the program");
    va_assert(std::vaCout().text.empty() && std::vaCerr().text.empty(), "silence when the condition holds");
    va_reach("condition holds");
}
ENTRY spec_plain1() {
    long x = va_int(-3, 3), y = va_int(-3, 3);
    va_exit_ok(x != y);
    ROFL_ASSERT_VAR1(x == y, x)
    va_exit_ok(0);
    va_assert(x == y, "an assertion whose condition is false ends the program");
    va_assert(std::vaCout().text.empty() && std::vaCerr().text.empty(), "silence when the condition holds");
    va_reach("condition holds");
}
ENTRY spec_plain2() {
    long x = va_int(-3, 3), y = va_int(-3, 3);
    va_exit_ok(x != y);
    ROFL_ASSERT_VAR2(x == y, x, y)
    va_exit_ok(0);
    va_assert(x == y, "an assertion whose condition is false ends the program");
    va_assert(std::vaCout().text.empty() && std::vaCerr().text.empty(), "silence when the condition holds");
    va_reach("condition holds");
}
ENTRY spec_plain3() {
    long x = va_int(-3, 3), y = va_int(-3, 3);
    va_exit_ok(x != y);
    ROFL_ASSERT_VAR3(x == y, x, y, x + y)
    va_exit_ok(0);
    va_assert(x == y, "an assertion whose condition is false ends the program");
    va_assert(std::vaCout().text.empty() && std::vaCerr().text.empty(), "silence when the condition holds");
    va_reach("condition holds");
}
ENTRY spec_plain4() {
    long x = va_int(-3, 3), y = va_int(-3, 3);
    va_exit_ok(x != y);
    ROFL_ASSERT_VAR4(x == y, x, y, x + y, x - y)
    va_exit_ok(0);
    va_assert(x == y, "an assertion whose condition is false ends the program");
    va_assert(std::vaCout().text.empty() && std::vaCerr().text.empty(), "silence when the condition holds");
    va_reach("condition holds");
}
ENTRY spec_plain5() {
    long x = va_int(-3, 3), y = va_int(-3, 3);
    va_exit_ok(x != y);
    ROFL_ASSERT_VAR5(x == y, x, y, x + y, x - y, x * 2)
    va_exit_ok(0);
    va_assert(x == y, "an assertion whose condition is false ends the program");
    va_assert(std::vaCout().text.empty() && std::vaCerr().text.empty(), "silence when the condition holds");
    va_reach("condition holds");
}
