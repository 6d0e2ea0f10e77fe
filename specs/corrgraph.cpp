// C31: associations of two sets of items by pairwise distances
#include <rofl/geometry/correspondence_graph_association.h>
#include "va.h"
using namespace rofl;
typedef CorrespondenceGraphAssociation G;
typedef std::vector<G::AssociationHypothesis> Hyps;
#define ENTRY extern "C" __attribute__((used)) void
struct Table {
    Scalar d[4][4];
    Scalar operator()(int i, int j) const { return i < j ? d[i][j] : d[j][i]; }
};
static const int ID[] = {0, 1, 2, 3};
static bool coherent(const Table& s, const Table& t, double tol, double dmin, int s0, int d0, int s1, int d1) {
    if (s0 == s1 || d0 == d1) return false;
    double a = s(s0, s1), b = t(d0, d1);
    return a > dmin && b - a < tol && a - b < tol;
}
// every maximum set of mutually coherent pairs, by enumeration
static void check(const Table& s, const Table& t, int ns, int nd, double tol, double dmin, const Hyps& hs) {
    int n = ns * nd;
    unsigned adj[16], seen = 0;
    for (int i = 0; i < n; i++) {
        adj[i] = 0;
        for (int j = 0; j < n; j++)
            if (coherent(s, t, tol, dmin, i / nd, i % nd, j / nd, j % nd)) adj[i] |= 1u << j;
    }
    int best = 0, num = 0;
    for (unsigned m = 1; m < (1u << n); m++) {
        bool ok = true;
        int k = 0;
        for (int i = 0; i < n && ok; i++)
            if (m >> i & 1) {
                k++;
                ok = (m & ~(1u << i) & ~adj[i]) == 0;
            }
        if (!ok || k < best) continue;
        if (k > best) best = k, num = 0;
        num++;
    }
    va_assert((int)hs.size() == num, "as many associations as maximum coherent sets");
    unsigned got[64];
    for (size_t h = 0; h < hs.size() && h < 64; h++) {
        auto& as = hs[h].associations;
        va_assert((int)as.size() == best, "an association pairs as many items as any coherent set");
        unsigned m = 0;
        for (size_t i = 0; i < as.size(); i++) {
            va_assert(0 <= as[i].first && as[i].first < ns && 0 <= as[i].second && as[i].second < nd, "an association pairs items of the two sets");
            for (size_t j = 0; j < i; j++)
                va_assert(coherent(s, t, tol, dmin, as[i].first, as[i].second, as[j].first, as[j].second), "the pairs of an association are mutually coherent");
            m |= 1u << (as[i].first * nd + as[i].second);
        }
        got[h] = m;
        for (size_t g = 0; g < h; g++) va_assert(got[g] != m, "no association is given twice");
    }
    va_reach("associations checked");
}
static void load(G& g, const Table& s, const Table& t, int ns, int nd) {
    g.insertSrc(ID, ID + ns, s);
    g.insertDst(ID, ID + nd, t);
}
// symbolic distances
static Table sym(int n) {
    Table t;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++) t.d[i][j] = va_real(0.1, 10);
    return t;
}
static const Scalar V[] = {2.0f, 2.0625f, 3.0f, 4.5f};
static Table pick(int n, int k) {
    Table t;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++) {
            t.d[i][j] = V[k % 4];
            k /= 4;
        }
    return t;
}
ENTRY spec_symbolic() {
    int c = va_choice(va_tier() ? 5 : 4);
    int ns = c == 0 ? 2 : c == 1 ? 2 : c == 2 ? 3 : c == 3 ? 2 : 3, nd = c == 0 ? 2 : c == 1 ? 3 : c == 2 ? 2 : c == 3 ? 1 : 3;
    Table s = sym(ns), t = c == 4 ? pick(3, 27) : sym(nd);
    G g;
    double tol = 0.25, dmin = 1.5;
    g.setTolerance(tol);
    g.setDistanceMin(dmin);
    load(g, s, t, ns, nd);
    Hyps hs;
    g.associate(hs);
    check(s, t, ns, nd, tol, dmin, hs);
}
// three items on each side: triangles among values that are equal, close or far apart
ENTRY spec_triangles() {
    int a = va_choice(va_tier() ? 64 : 16), b = va_choice(va_tier() ? 40 : 8);
    a = a * 37 % 64, b = b * 11 % 64;
    Table s = pick(3, a), t = pick(3, b);
    G g;
    load(g, s, t, 3, 3);
    Hyps hs;
    g.associate(hs);
    check(s, t, 3, 3, 0.1f, 0, hs);
    va_reach("triangles matched");
}
// the same object is used again, with other items or another tolerance
ENTRY spec_again() {
    Table s = pick(3, 6 + 16 * va_choice(3)), t = pick(2, va_choice(4)), u = pick(3, 27);
    G g;
    Hyps hs;
    switch (va_choice(5)) {
        case 0:
            load(g, s, t, 3, 2);
            g.associate(hs);
            g.associate(hs);
            check(s, t, 3, 2, 0.1f, 0, hs);
            break;
        case 1:
            load(g, u, s, 3, 3);
            g.associate(hs);
            load(g, s, t, 3, 2);
            g.associate(hs);
            check(s, t, 3, 2, 0.1f, 0, hs);
            break;
        case 2:
            load(g, s, t, 3, 2);
            g.associate(hs);
            g.setTolerance(1.2f);
            g.associate(hs);
            check(s, t, 3, 2, 1.2f, 0, hs);
            break;
        case 3:
            load(g, t, s, 2, 3);
            g.setDistanceMin(2.03f);
            g.associate(hs);
            check(t, s, 2, 3, 0.1f, 2.03f, hs);
            g.insertDst(ID, ID + 3, u);
            g.associate(hs);
            check(t, u, 2, 3, 0.1f, 2.03f, hs);
            break;
        case 4:
            g.insertDst(ID, ID + 2, t);
            g.insertSrc(ID, ID + 3, s);
            g.associate(hs);
            check(s, t, 3, 2, 0.1f, 0, hs);
            g.insertSrc(ID, ID + 3, u);
            g.associate(hs);
            check(u, t, 3, 2, 0.1f, 0, hs);
            break;
    }
    va_reach("used again");
}
// the version that gives sets of nodes: node is * (items of destination) + id
ENTRY spec_nodes() {
    int a = va_choice(4), b = va_choice(4);
    Table s = pick(2, a), t = pick(3, b + 4 * va_choice(3) + 32);
    G g;
    load(g, s, t, 2, 3);
    std::vector<LabelSet> cl(3);
    if (va_choice(2))
        for (int i = 0; i < 8; i++) cl[2].insert(i);
    Hyps hs;
    g.associate(cl);
    g.associate(hs);
    check(s, t, 2, 3, 0.1f, 0, hs);
    va_assert(cl.size() == hs.size(), "both versions give as many associations");
    for (size_t i = 0; i < cl.size(); i++) {
        va_assert(cl[i].size() == hs[i].associations.size(), "both versions give the same pairs");
        for (auto& p : hs[i].associations) va_assert(cl[i].inside(p.first * 3 + p.second), "both versions give the same pairs");
    }
}
// larger sets of items. All distances different: the items of one set are those of the other, in some
// order, with one more on either side; all distances equal: every assignment is an association
struct Ruler {
    double p[6], f;
    Scalar operator()(int i, int j) const { return f * (p[i] < p[j] ? p[j] - p[i] : p[i] - p[j]); }
};
static const int ID6[] = {0, 1, 2, 3, 4, 5};
ENTRY spec_rulers() {
    va_long(60000000);
    static const double M[] = {0, 1, 4, 9, 11};  // differences 1 2 3 4 5 7 8 9 10 11
    static const double F[] = {1, 3000, 0.25};
    int n = 4 + va_choice(2), mul = 2 + va_choice(2), more = va_choice(3);
    if (n == 4 && mul == 2) mul = 1;
    Ruler s, t;
    s.f = t.f = F[va_choice(3)];
    for (int i = 0; i < n; i++) s.p[i] = M[i], t.p[(i * mul + 1) % n] = 20 - M[i];
    s.p[n] = 300;
    t.p[n] = -1000;
    G g;
    g.insertSrc(ID6, ID6 + n + (more == 1), s);
    g.insertDst(ID6, ID6 + n + (more == 2), t);
    Hyps hs;
    g.associate(hs);
    va_assert(hs.size() == 1, "as many associations as maximum coherent sets");
    if (hs.size() != 1) return;
    va_assert((int)hs[0].associations.size() == n, "an association pairs as many items as any coherent set");
    for (auto& a : hs[0].associations) va_assert(a.first < n && a.second == (a.first * mul + 1) % n, "the pairs of an association are mutually coherent");
    va_reach("rulers");
}
ENTRY spec_equal_all() {
    va_long(60000000);
    int ns = 1 + va_choice(4), nd = 1 + va_choice(4);
    Table s, t;
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) s.d[i][j] = 2, t.d[i][j] = 2;
    G g;
    load(g, s, t, ns, nd);
    Hyps hs;
    g.associate(hs);
    // arrangements of the smaller set in the larger one
    int k = ns < nd ? ns : nd, m = ns < nd ? nd : ns, num = 1;
    for (int i = 0; i < k; i++) num *= m - i;
    va_assert((int)hs.size() == num, "as many associations as maximum coherent sets");
    for (auto& h : hs) va_assert((int)h.associations.size() == k, "an association pairs as many items as any coherent set");
    va_reach("all equal");
}
// fewer items than before
ENTRY spec_fewer() {
    Table s = pick(3, 6), t = pick(3, 27);
    G g;
    Hyps hs;
    load(g, s, t, 3, 3);
    g.associate(hs);
    int ns = va_choice(4), nd = va_choice(4);
    load(g, s, t, ns, nd);
    g.associate(hs);
    if (ns && nd) check(s, t, ns, nd, 0.1f, 0, hs);
    else
        for (auto& h : hs) va_assert(h.associations.empty(), "nothing to associate, no pairs");
    va_reach("fewer items");
}
ENTRY spec_empty() {
    Table s = pick(2, 0);
    int c = va_choice(4);
    G g;
    if (c != 3) load(g, s, s, c == 0 ? 0 : 2, c == 1 ? 0 : 2);
    Hyps hs(1);
    g.associate(hs);
    for (auto& h : hs)
        if (c != 2) va_assert(h.associations.empty(), "nothing to associate, no pairs");
    if (c == 2) check(s, s, 2, 2, 0.1f, 0, hs);
    va_reach("no items");
}
