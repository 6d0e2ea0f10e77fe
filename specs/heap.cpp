// Spec: MinMaxHeap double-ended priority queue.  Values are order tokens: every abstract trace
// stands for all value tuples with the same order pattern (ties included).
#include "va.h"
#include <functional>
#include <rofl/common/min_max_heap.h>
#ifndef NEXT
#define NEXT 0
#endif
template <int CAP>
struct Model {  // unordered multiset of the held elements
    int v[CAP];
    int n = 0;
    void add(int x) { v[n++] = x; }
};
struct Less {
    bool operator()(int a, int b) const { return a < b; }
};
template <typename C, typename H, typename M>
static void observe(const H& h, const M& m) {
    C c;
    va_assert((int)h.size() == m.n, "size equals pushes minus pops");
    va_assert(h.empty() == (m.n == 0), "empty exactly when no element is held");
    if (m.n == 0) return;
    int lo = h.top(), hi = h.bottom();
    for (int i = 0; i < m.n; i++) {
        va_assert(!c(m.v[i], lo), "top() is a minimum of the held elements");
        va_assert(!c(hi, m.v[i]), "bottom() is a maximum of the held elements");
    }
}
template <typename C, typename H, typename M>
static void observeNext(const H& h, const M& m) {
    C c;
    if (m.n == 0) return;
    int a = h.nextTop(), b = h.nextBottom(), lo = h.top(), hi = h.bottom();
    if (m.n == 1) {
        va_assert(a == lo && b == lo, "with a single element the runner-up is that element");
        return;
    }
    // drop one occurrence of the minimum: nextTop is a minimum of the rest, and held by the rest
    bool skipped = false, held = false;
    for (int i = 0; i < m.n; i++) {
        if (!skipped && m.v[i] == lo) {
            skipped = true;
            continue;
        }
        va_assert(!c(m.v[i], a), "nextTop() is the second smallest element");
        if (m.v[i] == a) held = true;
    }
    va_assert(held, "nextTop() is an element other than the reported minimum");
    skipped = held = false;
    for (int i = 0; i < m.n; i++) {
        if (!skipped && m.v[i] == hi) {
            skipped = true;
            continue;
        }
        va_assert(!c(b, m.v[i]), "nextBottom() is the second largest element");
        if (m.v[i] == b) held = true;
    }
    va_assert(held, "nextBottom() is an element other than the reported maximum");
}
template <typename M>
static void take(M& m, int x, const char* msg) {
    for (int i = 0; i < m.n; i++)
        if (m.v[i] == x) {
            m.v[i] = m.v[--m.n];
            return;
        }
    va_assert(false, msg);
}
template <typename C, typename H, typename M>
static void look(const H& h, const M& m) {
#if NEXT
    observeNext<C>(h, m);
#else
    observe<C>(h, m);
#endif
}
template <typename H, typename M>
static void popAndCheck(H& h, M& m, bool minSide) {
    if (minSide) {
        int x = h.top();
        h.popTop();
        take(m, x, "popTop removes a held minimum");
    } else {
        int x = h.bottom();
        h.popBottom();
        take(m, x, "popBottom removes a held maximum");
    }
}
// n pushes of arbitrary values, then arbitrary pops; everything observed
template <typename C>
static void history(int n, int pops) {
    rofl::MinMaxHeap<int, C> h;
    Model<16> m;
    look<C>(h, m);
    for (int i = 0; i < n; i++) {
        int x = (int)va_int(-1000, 1000);
        h.push(x);
        m.add(x);
    }
    look<C>(h, m);
    for (int i = 0; i < pops; i++) {
        popAndCheck(h, m, va_choice(2));
        look<C>(h, m);
    }
    va_assert((int)h.size() == n - pops, "size equals pushes minus pops");
    va_reach("history");
}
// arbitrary interleaving of pushes and pops, observed at every point
template <typename C>
static void interleaved(int ops, int maxPush) {
    rofl::MinMaxHeap<int, C> h;
    Model<16> m;
    int pushes = 0;
    for (int i = 0; i < ops; i++) {
        int o = pushes < maxPush ? va_choice(m.n > 0 ? 3 : 1) : (m.n > 0 ? 1 + va_choice(2) : 3);
        if (o == 3) break;
        if (o == 0) {
            int x = (int)va_int(-1000, 1000);
            h.push(x);
            m.add(x);
            pushes++;
        } else
            popAndCheck(h, m, o == 1);
        look<C>(h, m);
    }
    va_assert((int)h.size() == m.n, "size equals pushes minus pops");
    va_reach("interleaved");
}
// long histories: tokens in a known order (a chain of <= or <), pushed through a permutation,
// plus one value that is unrelated to all of them; then drained from either side.
static int coprime(int k, int n) {  // smallest multiplier >= k sharing no factor with n
    for (;; k++) {
        int a = k, b = n;
        while (b) {
            int t = a % b;
            a = b;
            b = t;
        }
        if (a == 1) return k;
    }
}
static int perm(int kind, int i, int n) {
    switch (kind) {
        case 0: return i;
        case 1: return n - 1 - i;
        case 2: return i % 2 ? n - 1 - i / 2 : i / 2;
        case 3: return (i * coprime(7, n) + 3) % n;
        case 4: return (i * coprime(11, n) + 5) % n;
        default: return (i * coprime(n / 2 + 1, n) + n / 2) % n;
    }
}
template <int CAP>
static void longHistory(int n, int kind, int ties, int drain) {
    static int tok[CAP];
    tok[0] = (int)va_int(-100000, 100000);
    for (int i = 1; i < n; i++) {
        tok[i] = (int)va_int(-100000, 100000);
        if (ties && i % ties) va_assume(tok[i] == tok[i - 1]);
        else va_assume(tok[i] > tok[i - 1]);
    }
    rofl::MinMaxHeap<int, Less> h;
    int lo = 0, hi = n - 1;
    for (int i = 0; i < n; i++) h.push(tok[perm(kind, i, n)]);
    while (lo <= hi) {
        va_assert(h.top() == tok[lo], "top() is a minimum of the held elements");
        va_assert(h.bottom() == tok[hi], "bottom() is a maximum of the held elements");
#if NEXT
        if (lo < hi) {
            va_assert(h.nextTop() == tok[lo + 1], "nextTop() is the second smallest element");
            va_assert(h.nextBottom() == tok[hi - 1], "nextBottom() is the second largest element");
        }
#endif
        bool mn = drain == 0 ? true : drain == 1 ? false : drain == 2 ? (hi - lo) % 2 : (hi - lo) % 3 != 0;
        if (mn) h.popTop(), lo++;
        else h.popBottom(), hi--;
        va_assert((int)h.size() == hi - lo + 1, "size equals pushes minus pops");
    }
    va_assert(h.empty(), "empty exactly when no element is held");
    va_reach("long");
}
// one arbitrary value against an ordered population
template <int CAP>
static void oneUnknown(int n, int kind) {
    static int tok[CAP];
    tok[0] = (int)va_int(-100000, 100000);
    for (int i = 1; i < n; i++) {
        tok[i] = (int)va_int(-100000, 100000);
        va_assume(tok[i] > tok[i - 1]);
    }
    rofl::MinMaxHeap<int, Less> h;
    for (int i = 0; i < n; i++) h.push(tok[perm(kind, i, n)]);
    int x = (int)va_int(-200000, 200000);
    h.push(x);
    int t = tok[0] < x ? tok[0] : x, b = x < tok[n - 1] ? tok[n - 1] : x;
    va_assert(h.top() == t, "top() is a minimum of the held elements");
    va_assert(h.bottom() == b, "bottom() is a maximum of the held elements");
    int side = va_choice(2);
    if (side) {
        h.popTop();
        int t2 = x < tok[0] ? tok[0] : (x < tok[1] ? x : tok[1]);
        va_assert(h.top() == t2, "top() is a minimum of the held elements");
    } else {
        h.popBottom();
        int b2 = tok[n - 1] < x ? tok[n - 1] : (tok[n - 2] < x ? x : tok[n - 2]);
        va_assert(h.bottom() == b2, "bottom() is a maximum of the held elements");
    }
    va_reach("one");
}
// the ordering is an object: the heap uses the one it was given
struct Dir {
    bool down;
    Dir(bool d = false) : down(d) {}
    bool operator()(int a, int b) const { return down ? b < a : a < b; }
};
static void object(int n) {
    bool d = va_choice(2);
    rofl::MinMaxHeap<int, Dir> h{Dir(d)};
    int v[6];
    for (int i = 0; i < n; i++) h.push(v[i] = (int)va_int(-1000, 1000));
    int k = va_choice(3);
    for (int i = 0; i < k; i++) {
        int x = i % 2 ? h.bottom() : h.top();
        i % 2 ? h.popBottom() : h.popTop();
        int j = 0;
        while (j < n && v[j] != x) j++;
        va_assert(j < n, "a pop removes a held element");
        if (j < n) v[j] = v[--n];
    }
    rofl::MinMaxHeap<int, Dir> g(h);
    int lo = g.top(), hi = g.bottom();
#if NEXT
    int a = g.nextTop(), b = g.nextBottom(), na = 0, nb = 0;
    for (int i = 0; i < n; i++) {
        na += d ? v[i] > a : v[i] < a;
        nb += d ? v[i] < b : v[i] > b;
    }
    va_assert(na <= 1 && nb <= 1, "the runner-ups are those of the ordering given");
#endif
    for (int i = 0; i < n; i++) va_assert(d ? v[i] <= lo && v[i] >= hi : v[i] >= lo && v[i] <= hi, "top and bottom are those of the ordering given");
    va_reach("object");
}
// mixed histories of pushes and pops over an ordered population, in pseudo-random order
template <int R>
static void mixed(unsigned seed, int ops, int target) {
    static int tok[R];
    int cnt[R] = {0}, n = 0;
    tok[0] = (int)va_int(-100000, 100000);
    for (int i = 1; i < R; i++) {
        tok[i] = (int)va_int(-100000, 100000);
        va_assume(tok[i] > tok[i - 1]);
    }
    unsigned s = seed * 2654435761u + 12345;
    auto rnd = [&](unsigned k) {
        s = s * 1664525u + 1013904223u;
        return (s >> 16) % k;
    };
    rofl::MinMaxHeap<int, Less> h;
    for (int i = 0; i < ops; i++) {
        unsigned a = rnd(6);
        if (n == 0 || a < (n < target ? 4u : 2u)) {
            int r = rnd(R);
            h.push(tok[r]);
            cnt[r]++;
            n++;
        } else {
            int lo = 0, hi = R - 1;
            while (!cnt[lo]) lo++;
            while (!cnt[hi]) hi--;
            if (a % 2) h.popTop(), cnt[lo]--;
            else h.popBottom(), cnt[hi]--;
            n--;
        }
        va_assert((int)h.size() == n, "size equals pushes minus pops");
        if (!n) continue;
        int lo = 0, hi = R - 1;
        while (!cnt[lo]) lo++;
        while (!cnt[hi]) hi--;
        va_assert(h.top() == tok[lo], "top() is a minimum of the held elements");
        va_assert(h.bottom() == tok[hi], "bottom() is a maximum of the held elements");
#if NEXT
        if (n > 1) {
            int l2 = lo, h2 = hi;
            if (cnt[lo] == 1)
                do l2++;
                while (!cnt[l2]);
            if (cnt[hi] == 1)
                do h2--;
                while (!cnt[h2]);
            va_assert(h.nextTop() == tok[l2], "nextTop() is the second smallest element");
            va_assert(h.nextBottom() == tok[h2], "nextBottom() is the second largest element");
        }
#endif
    }
    va_reach("mixed");
}
// large heaps: every item lies in an interval of its own, so that the order is known
template <int CAP>
static void scale(int n, int kind, int drain, int pops) {
    static int tok[CAP];
    va_long(200000000);
    for (int i = 0; i < n; i++) tok[i] = n > 1000 ? 3 * i : (int)va_int(3 * i, 3 * i + 1);
    rofl::MinMaxHeap<int, Less> h;
    for (int i = 0; i < n; i++) h.push(tok[perm(kind, i, n)]);
    int lo = 0, hi = n - 1;
    va_assert((int)h.size() == n, "size equals pushes minus pops");
    for (; lo <= hi && pops; pops--) {
        va_assert(h.top() == tok[lo], "top() is a minimum of the held elements");
        va_assert(h.bottom() == tok[hi], "bottom() is a maximum of the held elements");
#if NEXT
        if (lo < hi) {
            va_assert(h.nextTop() == tok[lo + 1], "nextTop() is the second smallest element");
            va_assert(h.nextBottom() == tok[hi - 1], "nextBottom() is the second largest element");
        }
#endif
        bool mn = drain == 0 ? true : drain == 1 ? false : (hi - lo) % 2;
        if (mn) h.popTop(), lo++;
        else h.popBottom(), hi--;
    }
    va_assert((int)h.size() == hi - lo + 1, "size equals pushes minus pops");
    va_reach("scale");
}
#define E(name, ...) extern "C" void spec_##name() { __VA_ARGS__; }
E(hist4, history<Less>(4, 4))
E(hist5, history<Less>(5, 5))
E(hist6, history<Less>(6, 3))
E(hist5g, history<std::greater<int>>(5, 3))
E(inter7, interleaved<Less>(7, 4))
E(long_small, int n = 1 + va_choice(24); longHistory<64>(n, va_choice(6), va_choice(4), va_choice(4)))
E(long_mid, int n = 25 + va_choice(12); longHistory<64>(n, 2 + va_choice(4), 0, va_choice(4)))
E(long_64, int n = 61 + va_choice(6); longHistory<160>(n, 2 + va_choice(2), 0, 2 + va_choice(2)))
E(long_128, int n = 126 + va_choice(5); longHistory<160>(n, 3 + va_choice(2), 0, 2))
E(one_small, int n = 2 + va_choice(20); oneUnknown<64>(n, va_choice(6)))
E(one_64, int n = 61 + va_choice(6); oneUnknown<160>(n, va_choice(6)))
E(scale_700, scale<700>(700, va_choice(4), va_choice(3), 700))
E(scale_large, scale<34000>(34000, va_choice(3), va_choice(3), 40))
E(object, object(4))
E(mixed_16, mixed<24>(va_choice(60), 60, 16))
E(mixed_ties, mixed<5>(va_choice(30), 50, 14))
E(mixed_40, mixed<60>(100 + va_choice(20), 150, 40))
E(thorough_mixed, mixed<40>(200 + va_choice(500), 100, 20))
E(thorough_hist6, history<Less>(6, 6))
E(thorough_hist7, history<Less>(7, 3))
E(thorough_inter9, interleaved<Less>(9, 5))
E(thorough_long_256, int n = 254 + va_choice(5); longHistory<300>(n, 3 + va_choice(2), 0, 2))
E(thorough_long, int n = 37 + va_choice(40); longHistory<160>(n, va_choice(6), va_choice(4), va_choice(4)))
