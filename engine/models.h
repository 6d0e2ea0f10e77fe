#pragma once
enum Model {
    M_NONE = 0, M_VA_CHOICE, M_VA_INT, M_VA_REAL, M_VA_BITS, M_VA_ASSUME, M_VA_ASSERT, M_VA_NEAR, M_VA_GE, M_VA_REACH, M_VA_EXITOK, M_VA_TIER, M_VA_LONG,
    M_VA_CONC, M_VA_PRINT, M_VA_ISCONST,
    M_MALLOC, M_CALLOC, M_REALLOC, M_FREE, M_MEMCPY, M_MEMSET, M_MEMCMP, M_STRLEN, M_MEMCHR, M_STRCMP,
    M_NOP, M_RET0, M_ARG0, M_EXIT, M_GUARD_ACQ, M_GUARD_REL, M_ALLOCEXC, M_THROW, M_BEGINCATCH, M_ENDCATCH, M_RETHROW, M_STDTHROW, M_TYPEID,
    M_FN1, M_FLOOR, M_FABS, M_POW, M_FMOD, M_FMINMAX, M_FMULADD, M_LROUND, M_HOST, M_COPYSIGN, M_ISFINITE, M_LDEXP, M_HYPOT,
    M_CTLZ, M_CTTZ, M_CTPOP, M_BSWAP, M_MINMAX, M_ABS, M_OVF, M_EXPECT, M_OBJSIZE, M_CONST1, M_CLOCK, M_GETENV, M_TRAP, M_STREAM, M_ISNANF
};
