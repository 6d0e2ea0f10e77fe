// Spec: LabelSet is a mathematical set of integers.
#include "va.h"
#include <vector>
#include <rofl/common/label_set.h>
using rofl::LabelSet;
// membership oracle: a list of the distinct labels
struct Ref {
    int v[16];
    int n = 0;
    bool has(int x) const {
        for (int i = 0; i < n; i++)
            if (v[i] == x) return true;
        return false;
    }
    void add(int x) {
        if (!has(x)) v[n++] = x;
    }
    void del(int x) {
        for (int i = 0; i < n; i++)
            if (v[i] == x) {
                v[i] = v[--n];
                return;
            }
    }
};
static int lab() { return (int)va_int(-1000, 1000); }
static void observe(const LabelSet& s, const Ref& r) {
    va_assert((int)s.size() == r.n, "size counts the distinct labels");
    va_assert(s.empty() == (r.n == 0), "empty exactly when no label is held");
    int k = 0, prev = 0;
    for (LabelSet::Iterator it = s.begin(); it != s.end(); ++it, ++k) {
        va_assert(r.has(*it), "iteration yields held labels only");
        if (k) va_assert(prev < *it, "iteration is strictly increasing");
        prev = *it;
    }
    va_assert(k == r.n, "iteration yields every held label once");
    for (int i = 0; i < r.n; i++) va_assert(s.inside(r.v[i]), "held labels are inside");
}
static void fill(LabelSet& s, Ref& r, int n) {
    for (int i = 0; i < n; i++) {
        int x = lab();
        bool was = r.has(x);
        bool ret = s.insert(x);
        va_assert(ret == was, "insert reports whether the label was already present");
        r.add(x);
    }
}
static void pair(int na, int nb) {
    LabelSet a, b;
    Ref ra, rb;
    fill(a, ra, na);
    fill(b, rb, nb);
    Ref u, i, d;
    for (int k = 0; k < ra.n; k++) {
        u.add(ra.v[k]);
        if (rb.has(ra.v[k])) i.add(ra.v[k]);
        else d.add(ra.v[k]);
    }
    for (int k = 0; k < rb.n; k++) u.add(rb.v[k]);
    observe(a.unionSet(b), u);
    observe(a.intersectionSet(b), i);
    observe(a.differenceSet(b), d);
    bool eq = ra.n == rb.n && i.n == ra.n;
    va_assert((a == b) == eq && (b == a) == eq, "equality holds exactly for equal sets");
    va_assert((a != b) == !eq && (b != a) == !eq, "inequality is the negation of equality");
    observe(a, ra);
    observe(b, rb);
    LabelSet c(a);
    va_assert(c == a, "a copy equals its source");
    c.clear();
    observe(c, Ref());
    observe(a, ra);
    va_reach("pair");
}
static void single(int n) {
    LabelSet a;
    Ref r;
    fill(a, r, n);
    int x = lab();
    va_assert(a.inside(x) == r.has(x), "inside is membership");
    Ref p = r, m = r;
    p.add(x);
    m.del(x);
    observe(a.unionSet(x), p);
    observe(a.differenceSet(x), m);
    observe(a, r);
    a.remove(x);
    observe(a, m);
    a.insert(x);
    observe(a, p);
    std::vector<int> v(p.v, p.v + p.n);
    v.push_back(x);
    LabelSet b(v.begin(), v.end());
    va_assert(b == a, "a set built from a range holds exactly the labels of the range");
    a.clear();
    observe(a, Ref());
    va_reach("single");
}
#ifndef PRINT
// large sets, and sets of very different sizes: labels in intervals of their own
static void large() {
    va_long(30000000);
    static const int N[] = {1, 3, 40, 90};
    int na = N[va_choice(4)], nb = N[va_choice(4)], step = 1 + va_choice(3), off = va_choice(3) * 40 - 40;
    static int tok[400];
    for (int i = 0; i < 400; i++) tok[i] = (int)va_int(3 * i - 500, 3 * i - 499);
    LabelSet a, b;
    bool ia[400] = {}, ib[400] = {};
    for (int i = 0; i < na; i++) {
        int j = 50 + i * 3;
        ia[j] = true;
        va_assert(!a.insert(tok[j]), "insert reports whether the label was already present");
    }
    for (int i = nb; i-- > 0;) {
        int j = 50 + off + i * step;
        ib[j] = true;
        va_assert(!b.insert(tok[j]), "insert reports whether the label was already present");
    }
    LabelSet u = a.unionSet(b), x = a.intersectionSet(b), d = a.differenceSet(b);
    size_t nu = 0, nx = 0, nd = 0;
    bool eq = true;
    for (int i = 0; i < 400; i++) {
        va_assert(a.inside(tok[i]) == ia[i] && b.inside(tok[i]) == ib[i], "inside is membership");
        va_assert(u.inside(tok[i]) == (ia[i] || ib[i]), "the union holds the labels of both sets");
        va_assert(x.inside(tok[i]) == (ia[i] && ib[i]), "the intersection holds the labels common to both sets");
        va_assert(d.inside(tok[i]) == (ia[i] && !ib[i]), "the difference holds the labels of the first set only");
        nu += ia[i] || ib[i];
        nx += ia[i] && ib[i];
        nd += ia[i] && !ib[i];
        eq = eq && ia[i] == ib[i];
    }
    va_assert(u.size() == nu && x.size() == nx && d.size() == nd && (int)a.size() == na && (int)b.size() == nb, "the size is the number of distinct labels");
    va_assert((a == b) == eq && (a != b) == !eq, "equality holds exactly for equal sets");
    // the same but for one label in the middle
    if (na > 2) {
        LabelSet c(a);
        c.remove(tok[53]);
        c.insert(tok[54]);
        va_assert(!(c == a) && c != a && c.size() == a.size(), "equality holds exactly for equal sets");
        c.remove(tok[54]);
        c.insert(tok[53]);
        va_assert(c == a && !(a != c), "equality holds exactly for equal sets");
    }
    va_reach("large");
}
#endif
#ifdef PRINT
#include <sstream>
static const int L[] = {0, -7, 12, 3, -120};
extern "C" void spec_print() {
    LabelSet a;
    int n = va_choice(4), w[4];
    for (int i = 0; i < n; i++) a.insert(w[i] = L[va_choice(5)]);
    // the labels in increasing order
    std::string t;
    int k = 0;
    for (int x = -120; x <= 12; x++) {
        bool in = false;
        for (int i = 0; i < n; i++) in |= w[i] == x;
        if (in) t += (k++ ? ", " : "") + std::to_string(x);
    }
    std::ostringstream p, o;
    a.print(p);
    o << "set " << a << ";";
    va_assert(p.str() == "{" + t + "}", "the labels are printed in order between braces");
    va_assert(o.str() == "set {" + t + "};", "the operator prints the same text and returns its stream");
    va_reach("printed");
}
#else
extern "C" {
void spec_large() { large(); }
void spec_single0() { single(0); }
void spec_single1() { single(1); }
void spec_single2() { single(2); }
void spec_single3() { single(3); }
void spec_single4() { single(4); }
void spec_pair01() { pair(0, 1); }
void spec_pair00() { pair(0, 0); }
void spec_pair10() { pair(1, 0); }
void spec_pair11() { pair(1, 1); }
void spec_pair12() { pair(1, 2); }
void spec_pair21() { pair(2, 1); }
void spec_pair22() { pair(2, 2); }
void spec_pair30() { pair(3, 0); }
void spec_pair31() { pair(3, 1); }
void spec_pair13() { pair(1, 3); }
void spec_pair32() { pair(3, 2); }
void spec_pair23() { pair(2, 3); }
void spec_thorough_pair33() { pair(3, 3); }
void spec_thorough_pair42() { pair(4, 2); }
}
#endif
