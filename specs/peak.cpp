// Spec: PeakFinderD reports exactly the cells that strictly precede every other cell of their window.
#include "va.h"
#include <functional>
#include <iterator>
#include <vector>
#include <rofl/common/peak_finder_d.h>
static int gv[512];  // cell values, raster order
template <size_t D>
struct Field {
    std::array<int, D> mn, dm;
    int operator()(const std::array<int, D>& i) const {
        int p = 0;
        for (int d = (int)D - 1; d >= 0; d--) {
            va_assert(i[d] >= mn[d] && i[d] < mn[d] + dm[d], "the field is read only inside the domain");
            p = p * dm[d] + (i[d] - mn[d]);
        }
        return gv[p];
    }
};
template <size_t D>
static bool nextCell(std::array<int, D>& c, const std::array<int, D>& mn, const std::array<int, D>& dm) {
    for (size_t d = 0; d < D; d++) {
        if (++c[d] < mn[d] + dm[d]) return true;
        c[d] = mn[d];
    }
    return false;
}
// an ordering chosen when the finder is made
struct Turn {
    int sign;
    Turn(int s = 1) : sign(s) {}
    bool operator()(int a, int b) const { return sign * a < sign * b; }
};
static int turn = 1;
template <typename Cmp>
static Cmp make() { return Cmp(); }
template <>
Turn make<Turn>() { return Turn(turn); }
// how: which of the three ways of declaring the domain is used
template <size_t D, typename Cmp>
static void verify(const std::array<int, D>& mn, const std::array<int, D>& dm, const std::array<int, D>& win, bool filter, int vmin, int how) {
    Field<D> f{mn, dm};
    Cmp cmp = make<Cmp>();
    rofl::PeakFinderD<D, int, int, Cmp> pf(cmp);
    if (how == 0) {
        std::array<int, D> mx;
        for (size_t d = 0; d < D; d++) mx[d] = mn[d] + dm[d] - 1;
        pf.setDomain(mn, mx);
    } else if (how == 1)
        pf.setDomain(dm);  // requires mn == 0
    else {
        std::array<int, D> ce, hs;
        for (size_t d = 0; d < D; d++) hs[d] = (dm[d] - 1) / 2, ce[d] = mn[d] + hs[d];
        pf.setDomainCentered(ce, hs);  // requires odd extents
    }
    pf.setPeakWindow(win);
    if (filter) pf.enableFilterPeakMin(true, vmin);
    std::vector<std::array<int, D>> out;
    pf.detect(f, std::back_inserter(out));
    size_t found = 0;
    std::array<int, D> c = mn;
    do {
        bool peak = !filter || cmp(f(c), vmin);
        std::array<int, D> o = mn;
        if (peak) do {
                bool in = true, same = true;
                for (size_t d = 0; d < D; d++) {
                    int k = o[d] - c[d];
                    if (k > win[d] || -k > win[d]) in = false;
                    if (k) same = false;
                }
                if (in && !same && !cmp(f(c), f(o))) {
                    peak = false;
                    break;
                }
            } while (nextCell<D>(o, mn, dm));
        int times = 0;
        for (auto& r : out) times += r == c;
        va_assert(times == (peak ? 1 : 0), "a cell is reported, once, exactly when it strictly precedes every other cell of its window");
        found += times;
    } while (nextCell<D>(c, mn, dm));
    va_assert(found == out.size(), "only cells of the domain are reported");
    for (size_t i = 1; i < out.size(); i++) va_assert(!cmp(f(out[i]), f(out[i - 1])), "peaks are reported best first");
    va_reach("verify");
}
static void symbolic(int n) {
    for (int i = 0; i < n; i++) gv[i] = (int)va_int(-1000, 1000);
}
template <typename Cmp>
static void line(int n, int wmax, bool filt) {
    symbolic(n);
    int w = va_choice(wmax + 1);
    int vmin = filt ? (int)va_int(-1000, 1000) : 0;
    int how = va_choice(n % 2 ? 3 : 2);
    int m = how == 1 ? 0 : 7;
    verify<1, Cmp>({m}, {n}, {w}, filt, vmin, how);
}
template <typename Cmp>
static void plane(int a, int b, int how, int w0 = -1) {
    symbolic(a * b);
    int m = how == 1 ? 0 : -3;
    verify<2, Cmp>({m, m}, {a, b}, {w0 < 0 ? va_choice(3) : w0, va_choice(3)}, false, 0, how);
}
// larger domains: the cells carry a chain of tokens through a permutation, and one cell is free
template <size_t D>
static void big(const std::array<int, D>& dm, const std::array<int, D>& win, int mul, int add, int levels, bool filt) {
    int n = 1;
    for (size_t d = 0; d < D; d++) n *= dm[d];
    int k = (int)va_int(1, 100);  // arbitrary gap between consecutive levels
    int b = (int)va_int(-1000, 1000);
    for (int i = 0; i < n; i++) gv[i] = b + k * (((i * mul + add) % n) / levels);
    std::array<int, D> mn;
    mn.fill(-2);
    verify<D, std::greater<int>>(mn, dm, win, filt, b + k * (n / levels / 2), 0);
}
template <size_t D>
static void bigs(const std::array<int, D>& dm, int n) {
    static const int muls[] = {1, 7, 11, 13, 17, 19, 23, 29, 31, 37};
    std::array<int, D> w;
    for (size_t d = 0; d < D; d++) w[d] = va_choice(3);
    if (va_tier()) big<D>(dm, w, muls[va_choice(10)], va_choice(2) * 5, 1 + va_choice(3), va_choice(2));
    else {
        int q = va_choice(4);
        big<D>(dm, w, muls[1 + q], 5 * (q % 2), 1 + q / 2, q % 3 == 2);
    }
}
typedef std::greater<int> G;
typedef std::less<int> L;
// fixed fields, ordering and filter given as objects, finder used again with other settings
static void again() {
    static const int V[4][8] = {{3, 1, 4, 1, 5, 9, 2, 6}, {-5, 3, -5, 8, -9, 7, 9, -3}, {0, 0, 1, 0, 0, -1, 0, 0}, {7, 7, 6, 6, 8, 5, 5, 5}};
    const int* v = V[va_choice(4)];
    for (int i = 0; i < 8; i++) gv[i] = v[i];
    turn = va_choice(2) ? 1 : -1;
    verify<1, Turn>({-1}, {8}, {va_choice(4)}, va_choice(2), va_choice(3) * 3 - 2, 0);
}
// one finder: settings replaced between detections, filter switched off again, window zero until set
static void settings() {
    static const int V[8] = {3, 1, 4, 1, 5, 9, 2, 6};
    for (int i = 0; i < 8; i++) gv[i] = V[i];
    Field<1> f{{0}, {8}};
    rofl::PeakFinderD<1, int, int, std::greater<int>> pf;
    pf.setDomain(std::array<int, 1>{{8}});
    std::vector<std::array<int, 1>> o;
    pf.detect(f, std::back_inserter(o));
    va_assert(o.size() == 8, "with no window every cell is a peak");
    pf.setPeakWindow({{1}});
    pf.enableFilterPeakMin(true, 4);
    o.clear();
    pf.detect(f, std::back_inserter(o));
    va_assert(o.size() == 2 && o[0][0] == 5 && o[1][0] == 7, "window and filter are those set last");
    pf.enableFilterPeakMin(false, 100);
    o.clear();
    pf.detect(f, std::back_inserter(o));
    va_assert(o.size() == 4 && o[0][0] == 5 && o[1][0] == 7 && o[2][0] == 2 && o[3][0] == 0, "a filter switched off does not apply");
    pf.setDomain(std::array<int, 1>{{1}}, std::array<int, 1>{{3}});
    o.clear();
    pf.detect(f, std::back_inserter(o));
    va_assert(o.size() == 1 && o[0][0] == 2, "the domain is that set last");
    va_reach("settings");
}
// sizes: windows wider than a few cells, many peaks, windows with many items
static void sizes() {
    int q = va_choice(va_tier() ? 13 : 9), n = 0;
    va_long(400000000);
    if (q < 4) {  // a line under windows of 4, 6, 9, 40 cells on each side
        static const int W[] = {4, 6, 9, 40};
        n = 31;
        for (int i = 0; i < n; i++) gv[i] = (i * 12 + 5) % 31;
        verify<1, G>({-3}, {n}, {W[q]}, false, 0, 0);
    } else if (q == 4) {  // every second cell is a peak
        n = 301;
        for (int i = 0; i < n; i++) gv[i] = i % 2 ? (i * 37) % 301 + 400 : (i * 11) % 301;
        verify<1, G>({2}, {n}, {1}, false, 0, 0);
    } else if (q == 5) {  // rising, then falling, under a wide window
        n = 160;
        for (int i = 0; i < n; i++) gv[i] = i < 90 ? i : 180 - i;
        verify<1, G>({0}, {n}, {70}, false, 0, 1);
    } else if (q == 6) {  // falling only: the window keeps every candidate
        n = 170;
        for (int i = 0; i < n; i++) gv[i] = -i;
        verify<1, G>({0}, {n}, {75}, false, 0, 1);
    } else if (q == 7) {
        n = 17 * 15;
        for (int i = 0; i < n; i++) gv[i] = (i * 98 + 5) % 255;
        verify<2, G>({0, -4}, {17, 15}, {5, 4}, false, 0, 0);
    } else if (q == 8) {  // a plateau, then lower cells that matter only to each other
        n = 200;
        for (int i = 0; i < n; i++) gv[i] = i < 100 ? 10 : i == 105 ? 5 : i == 180 ? 1 : 0;
        verify<1, G>({0}, {n}, {75}, false, 0, 1);
    } else {
        n = 20 * 20;
        for (int i = 0; i < n; i++) gv[i] = (i * (q == 9 ? 1 : q == 10 ? 399 : q == 11 ? 77 : 163) + 5) % 400;
        verify<2, G>({0, -4}, {20, 20}, {q - 4, 4}, false, 0, 0);
    }
}
extern "C" {
void spec_sizes() { sizes(); }
void spec_again() { again(); }
void spec_settings() { settings(); }
void spec_line1() { line<G>(1, 1, false); }
void spec_line2() { line<G>(2, 2, true); }
void spec_line3() { line<G>(3, 3, true); }
void spec_line4() { line<L>(4, 3, true); }
void spec_line5() { line<G>(5, 3, false); }
void spec_line6() { line<G>(6, 2, false); }
void spec_plane22() { plane<G>(2, 2, va_choice(2)); }
void spec_plane23_0() { plane<G>(2, 3, 0, 0); }
void spec_plane23_1() { plane<G>(2, 3, 0, 1); }
void spec_thorough_plane23() { plane<L>(2, 3, 1, 2); }
void spec_thorough_plane32() { plane<L>(3, 2, 1); }
void spec_plane13() { plane<G>(1, 3, 2); }
void spec_thorough_line7() { line<G>(7, 3, false); }
void spec_thorough_plane24() { plane<G>(2, 4, 0); }
void spec_thorough_plane33() { plane<G>(3, 3, 2); }
void spec_big44() { bigs<2>({4, 4}, 16); }
void spec_big75() { bigs<2>({7, 5}, 35); }
void spec_big19() { bigs<1>({19}, 19); }
void spec_big332() { bigs<3>({3, 3, 2}, 18); }
void spec_big333() { bigs<3>({3, 3, 3}, 27); }
void spec_thorough_big98() { bigs<2>({9, 8}, 72); }
void spec_thorough_big543() { bigs<3>({5, 4, 3}, 60); }
void spec_thorough_big4() { bigs<4>({3, 2, 3, 2}, 36); }
}
