// Spec: DisjointSet maintains the partition generated by the joins.
#include "va.h"
#include <iterator>
#include <vector>
#include <rofl/common/disjoint_set.h>
using rofl::DisjointSet;
struct Ref {  // class label of every node
    int c[64];
    int n = 0;
    void make() {
        c[n] = n;
        n++;
    }
    bool join(int a, int b) {
        int x = c[a], y = c[b];
        if (x == y) return false;
        for (int i = 0; i < n; i++)
            if (c[i] == y) c[i] = x;
        return true;
    }
    int classes() const {
        int k = 0;
        for (int i = 0; i < n; i++) k += c[i] == firstLabel(i);
        int cnt = 0;
        for (int i = 0; i < n; i++) {
            bool first = true;
            for (int j = 0; j < i; j++)
                if (c[j] == c[i]) first = false;
            cnt += first;
        }
        return cnt;
    }
    int firstLabel(int i) const { return c[i]; }
    size_t count(int a) const {
        size_t k = 0;
        for (int i = 0; i < n; i++) k += c[i] == c[a];
        return k;
    }
};
static void observe(DisjointSet& d, const Ref& r, bool full) {
    va_assert((int)d.nodeNum() == r.n && (int)d.size() == r.n, "node count equals the nodes created");
    va_assert(d.setNum() == r.classes(), "set count equals the number of classes");
    std::vector<int> reps;
    d.parents(std::back_inserter(reps));
    va_assert((int)reps.size() == r.classes(), "exactly one representative per class is listed");
    for (int i = 0; i < r.n; i++) {
        int f = d.find(i);
        va_assert(f >= 0 && f < r.n, "find returns an existing node");
        va_assert(r.c[f] == r.c[i], "find returns a member of the node's own class");
        va_assert(d.size(i) == r.count(i), "class size equals the number of its members");
        int listed = 0;
        for (int x : reps) listed += x == f;
        va_assert(listed == 1, "the representative found is the one listed");
        if (full)
            for (int j = 0; j < i; j++) va_assert((d.find(j) == f) == (r.c[j] == r.c[i]), "two nodes share a representative exactly when they were joined");
    }
}
static void doJoin(DisjointSet& d, Ref& r, int a, int b) {
    bool did = r.join(a, b);
    int root = d.join(a, b);
    if (did) va_assert(root >= 0 && root < r.n && root == d.find(a) && root == d.find(b), "join returns the representative of the merged class");
    else va_assert(root == r.n, "joining two nodes of one class reports that nothing was joined");
}
static void all(int n, int joins, bool late) {
    DisjointSet d(late ? 0 : n);
    Ref r;
    for (int i = 0; i < n; i++) {
        if (late) {
            int id = d.makeSet();
            va_assert(id == i, "new sets are numbered consecutively");
        }
        r.make();
    }
    observe(d, r, true);
    for (int j = 0; j < joins; j++) {
        int a = va_choice(n), b = va_choice(n);
        doJoin(d, r, a, b);
        if (va_tier() || j == joins - 1) observe(d, r, true);
    }
    va_reach("all");
}
static void mixed(int ops) {  // makeSet, join and find interleaved in every order
    DisjointSet d;
    Ref r;
    observe(d, r, true);
    for (int k = 0; k < ops; k++) {
        int o = r.n == 0 ? 0 : r.n >= 5 ? 1 + va_choice(2) : va_choice(3);
        if (o == 0) {
            va_assert(d.makeSet() == r.n, "new sets are numbered consecutively");
            r.make();
        } else if (o == 1) {
            int a = va_choice(r.n), b = va_choice(r.n);
            doJoin(d, r, a, b);
        } else {
            int a = va_choice(r.n);
            d.find(a);
        }
    }
    observe(d, r, true);
    va_reach("mixed");
}
// deep forests: merge order patterns over many nodes, then arbitrary further joins
static void deep(int n, int pattern) {
    DisjointSet d;
    d.initSets(3);
    d.join(0, 1);
    d.initSets(n);  // re-initialisation forgets everything
    Ref r;
    for (int i = 0; i < n; i++) r.make();
    observe(d, r, false);
    if (pattern == 0)
        for (int s = 1; s < n; s *= 2)
            for (int i = 0; i + s < n; i += 2 * s) doJoin(d, r, i, i + s);
    else if (pattern == 1)
        for (int i = 1; i < n; i++) doJoin(d, r, i, i - 1);
    else if (pattern == 2)
        for (int i = 1; i < n; i++) doJoin(d, r, 0, i);
    else if (pattern == 3)
        for (int i = 0; i + 4 < n; i++) doJoin(d, r, i + 4, i);
    else
        for (int s = 1; s < n; s *= 2)
            for (int i = n - 1; i - s >= 0; i -= 2 * s) doJoin(d, r, i, i - s);
    observe(d, r, false);
    int a = va_choice(n), b = va_choice(n);
    doJoin(d, r, a, b);
    observe(d, r, true);
    va_reach("deep");
}
// trees of every relation of ranks, joined through arbitrary nodes, no lookup in between
static void forest(int maxRank, bool third) {
    int ra = va_choice(maxRank + 1), rb = va_choice(maxRank + 1), rc = third ? va_choice(maxRank + 1) : 0;
    int first[4] = {0, 1 << ra, (1 << ra) + (1 << rb), (1 << ra) + (1 << rb) + (third ? 1 << rc : 0)};
    DisjointSet d(first[3]);
    Ref r;
    for (int i = 0; i < first[3]; i++) r.make();
    for (int t = 0; t < 3; t++)
        for (int s = 1; s < first[t + 1] - first[t]; s *= 2)
            for (int i = first[t]; i + s < first[t + 1]; i += 2 * s) d.join(i, i + s), r.join(i, i + s);
    int a = va_choice(first[1]), b = first[1] + va_choice(first[2] - first[1]);
    if (va_choice(2)) d.join(a, b);
    else d.join(b, a);
    r.join(a, b);
    if (third) {
        int x = va_choice(first[2]), y = first[2] + va_choice(first[3] - first[2]);
        if (x % 2) d.join(x, y);
        else d.join(y, x);
        r.join(x, y);
    }
    observe(d, r, false);
    va_reach("forest");
}
// trees as deep as joins can make them, and a class of many nodes
static void large(int n) {
    DisjointSet d(n);
    int order = va_choice(3);
    for (int s = 1, k = n; s < n; s *= 2)
        for (int i = 0; i + s < n; i += 2 * s) {
            // through the representatives, through the first nodes, or through the last ones
            int a = order == 2 ? i + s - 1 : i, b = order == 0 ? i + s : order == 1 ? i + s : i + 2 * s - 1 < n ? i + 2 * s - 1 : n - 1;
            int root = order == 1 ? d.join(b, a) : d.join(a, b);
            va_assert(root >= i && root < i + 2 * s && root < n, "join returns the representative of the merged class");
            va_assert(d.setNum() == --k, "set count equals the number of classes");
        }
    int f = d.find(va_choice(2) ? n - 1 : 0);
    for (int i = 0; i < n; i++) {
        va_assert(d.find(i) == f, "two nodes share a representative exactly when they were joined");
        va_assert((int)d.size(i) == n, "class size equals the number of its members");
    }
    va_assert(d.join(0, n - 1) == n && d.join(n / 2, n / 3) == n, "joining two nodes of one class reports that nothing was joined");
    va_reach("large");
}
// chains: one class grows node by node beside many others
static void chain(int n) {
    DisjointSet d(n);
    int o = va_choice(2);
    for (int i = 1; i < n; i++) {
        int root = o ? d.join(i, i - 1) : d.join(i - 1, i);
        va_assert(root >= 0 && root <= i && d.find(0) == root, "join returns the representative of the merged class");
        va_assert((int)d.size(i) == i + 1 && (i + 1 == n || d.size(i + 1) == 1), "class size equals the number of its members");
        va_assert(d.setNum() == n - i, "set count equals the number of classes");
    }
    va_reach("chain");
}
extern "C" {
void spec_large() { large(2048); }
void spec_large_odd() { large(1500); }
void spec_chain() { chain(700); }
void spec_forest2() { forest(3, false); }
void spec_forest3() { forest(va_tier() ? 3 : 2, true); }
void spec_all3() { all(3, 4, va_choice(2)); }
void spec_all4() { all(4, va_tier() ? 4 : 3, va_choice(2)); }
void spec_all5() { all(5, 3, va_choice(2)); }
void spec_mixed() { mixed(va_tier() ? 8 : 6); }
void spec_deep() { deep(16, va_choice(5)); }
void spec_deep2() { deep(11, va_choice(5)); }
void spec_invalid() {  // identifiers outside the structure
    int n = va_choice(4);
    DisjointSet d(n);
    Ref r;
    for (int i = 0; i < n; i++) r.make();
    int bad = (int)va_int(-1000000, 1000000);
    va_assume(bad < 0 || bad >= n);
    va_assert(d.find(bad) == n, "an invalid identifier is reported as the number of nodes");
    va_assert(d.join(bad, bad) == n, "joining an invalid identifier reports that nothing was joined");
    for (int i = 0; i < n; i++) {
        va_assert(d.join(bad, i) == n, "joining an invalid identifier reports that nothing was joined");
        va_assert(d.join(i, bad) == n, "joining an invalid identifier reports that nothing was joined");
    }
    va_assert(d.size(bad) == 0, "an invalid identifier belongs to no class");
    observe(d, r, true);
    va_reach("invalid");
}
}
