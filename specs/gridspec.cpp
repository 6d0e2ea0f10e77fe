// Spec: Grid cells are independent storage locations addressed consistently by indices, pointer and position.
#include "va.h"
#include <rofl/common/grid.h>
template <size_t D>
using Arr = std::array<int, D>;
template <size_t D>
static int cells(const Arr<D>& dm) {
    int n = 1;
    for (size_t d = 0; d < D; d++) n *= dm[d];
    return n;
}
template <size_t D>
static Arr<D> at(const Arr<D>& mn, const Arr<D>& dm, int p) {
    Arr<D> c;
    for (size_t d = 0; d < D; d++) c[d] = mn[d] + p % dm[d], p /= dm[d];
    return c;
}
// every way of setting the domain
template <size_t D>
static void domain(rofl::Grid<D, int>& g, const Arr<D>& mn, const Arr<D>& dm, int how) {
    Arr<D> mx, ce, hw;
    for (size_t d = 0; d < D; d++) mx[d] = mn[d] + dm[d] - 1, hw[d] = (dm[d] - 1) / 2, ce[d] = mn[d] + hw[d];
    switch (how) {
        case 0: g.initBounds(mn, dm); break;
        case 1: g.initMinMax(mn, mx); break;
        case 2: g.initCenter(ce, hw); break;   // odd extents
        default: g.initBounds(dm); break;      // origin at zero
    }
}
template <size_t D>
static void check(rofl::Grid<D, int>& g, const Arr<D>& mn, const Arr<D>& dm) {
    const rofl::Grid<D, int>& cg = g;
    int n = cells<D>(dm);
    va_assert((int)g.size() == n, "the grid holds one value per cell");
    for (size_t d = 0; d < D; d++) va_assert(g.dimensions()[d] == dm[d], "dimensions");
    Arr<D> out;
    for (size_t d = 0; d < D; d++) out[d] = (int)va_int(-300000, 300000);
    bool in = true;
    for (size_t d = 0; d < D; d++)
        if (out[d] < mn[d] || out[d] >= mn[d] + dm[d]) in = false;
    va_assert(g.inside(out) == in, "inside is membership in the domain");
    int v[128];
    for (int p = 0; p < n; p++) {
        Arr<D> c = at<D>(mn, dm, p);
        v[p] = (int)va_int(-1000, 1000);
        va_assert(g.getPos(c) == p, "getPos numbers the cells in raster order");
        Arr<D> b = g.getIndices(p);
        for (size_t d = 0; d < D; d++) va_assert(b[d] == c[d], "getIndices inverts getPos");
        va_assert(g.inside(c), "cells of the domain are inside");
        switch (p % 3) {
            case 0: g.value(c) = v[p]; break;
            case 1: g.value(c.data()) = v[p]; break;
            default: g.value(p) = v[p]; break;
        }
    }
    for (int p = 0; p < n; p++) {
        Arr<D> c = at<D>(mn, dm, p);
        va_assert(cg.value(c) == v[p] && g.value(c) == v[p], "access by indices reads the value last written to the cell");
        va_assert(cg.value(c.data()) == v[p] && g.value(c.data()) == v[p], "access by index pointer reads the value last written to the cell");
        va_assert(cg.value(p) == v[p] && g.value(p) == v[p], "access by position reads the value last written to the cell");
    }
    int f = (int)va_int(-1000, 1000);
    g.fill(f);
    for (int p = 0; p < n; p++) va_assert(cg.value(p) == f, "fill sets every cell");
    va_reach("check");
}
template <size_t D>
static void run(int maxDim, bool all) {
    Arr<D> mn, dm;
    int how = va_choice(4);
    for (size_t d = 0; d < D; d++) {
        dm[d] = how == 2 ? 1 + 2 * va_choice((maxDim + 1) / 2) : 1 + va_choice(maxDim);
        mn[d] = how == 3 ? 0 : (int)va_int(-100000, 100000);
    }
    if (how == 0 && va_choice(2)) {
        rofl::Grid<D, int> g(mn, dm);
        check<D>(g, mn, dm);
    } else if (how == 3 && va_choice(2)) {
        rofl::Grid<D, int> g(dm);
        check<D>(g, mn, dm);
    } else {
        rofl::Grid<D, int> g;
        va_assert(g.size() == 0, "a default grid is empty");
        domain<D>(g, mn, dm, how);
        check<D>(g, mn, dm);
        // re-initialisation with another domain
        Arr<D> m2, d2;
        for (size_t d = 0; d < D; d++) m2[d] = (int)va_int(-100000, 100000), d2[d] = 1 + (int)((dm[d] + d) % 3);
        domain<D>(g, m2, d2, 0);
        check<D>(g, m2, d2);
        // and again with a smaller one, each way
        Arr<D> m3, d3;
        for (size_t d = 0; d < D; d++) m3[d] = how == 3 ? 0 : (int)va_int(-100000, 100000), d3[d] = 1;
        domain<D>(g, m3, d3, how);
        va_assert(g.size() == 1, "the grid holds one value per cell after its domain shrank");
        g.value(m3) = 77;
        va_assert(g.value(0) == 77 && g.getPos(m3) == 0, "the cell of a domain made smaller");
    }
}
// position access outside the domain is refused, never performed
static void outside() {
    rofl::Grid<2, int> g(Arr<2>{0, 0}, Arr<2>{3, 2});
    int p = (int)va_int(-1000, 1000);
    va_assume(p < 0 || p >= 6);
    bool thrown = false;
    try {
        g.value(p) = 1;
    } catch (...) {
        thrown = true;
    }
    va_assert(thrown, "access by a position outside the grid is refused");
    thrown = false;
    const rofl::Grid<2, int>& cg = g;
    try {
        thrown = cg.value((int[]){-1000, -1, 6, 7, 1000}[va_choice(5)]) == 12345;
    } catch (...) {
        thrown = true;
    }
    va_assert(thrown, "reading a position outside the grid is refused");
    va_reach("outside");
}
extern "C" {
void spec_d1() { run<1>(5, true); }
void spec_d2() { run<2>(3, true); }
void spec_d3() { run<3>(2, true); }
void spec_thorough_d3() { run<3>(3, true); }
void spec_thorough_d4() { run<4>(2, true); }
void spec_thorough_d2() { run<2>(7, true); }
void spec_outside() { outside(); }
}
