// C14: the Morton tree. Model streams are not needed: printing is no part of it.
#include <rofl/common/morton_tree.h>
#include <list>
#include <vector>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void
#ifndef TREE_T
#define TREE_T int
#endif
#ifndef TREE_D
#define TREE_D 2
#endif
typedef MortonTree<TREE_T, TREE_D> Tree;
typedef Tree::Item Item;
// the coordinates used and their ranks along the order of the highest differing digit: numbers of different
// sign differ above every digit
static const TREE_T V[] = {-2, -1, 0, 1, 3};
static const int NV = 5;
// highest binary digit in which two of the coordinates differ
static int level(TREE_T a, TREE_T b) {
    if (a == b) return -1;
    if ((a < 0) != (b < 0)) return 100;
    // two's complement: -2 and -1 differ in digit 0
    long x = (long)a, y = (long)b;
    unsigned long d = (unsigned long)(x ^ y);
    int l = -1;
    while (d) d >>= 1, l++;
    return l;
}
static bool before(const Item& a, const Item& b) {
    int best = -1, dim = 0;
    for (int d = 0; d < TREE_D; d++) {
        int l = level(a.values[d], b.values[d]);
        if (l > best) best = l, dim = d;
    }
    return best >= 0 && a.values[dim] < b.values[dim];
}
static bool equal(const Item& a, const Item& b) {
    for (int d = 0; d < TREE_D; d++)
        if (a.values[d] != b.values[d]) return false;
    return true;
}
static Item item(int span, int id) {
    Item i;
    i.id = id;
    for (int d = 0; d < TREE_D; d++) i.values[d] = V[va_choice(span)];
    return i;
}
struct Ref {
    Item it[80];
    int n = 0;
};
static void holds(Tree& t, const Ref& r) {
    va_assert((int)t.size() == r.n && t.end() - t.begin() == r.n && (int)t.getItems().size() == r.n, "the size is the number of items inserted");
    bool used[80] = {};
    for (auto p = t.begin(); p != t.end(); ++p) {
        bool f = false;
        for (int k = 0; k < r.n && !f; k++)
            if (!used[k] && r.it[k].id == p->id && equal(r.it[k], *p)) used[k] = f = true;
        va_assert(f, "the tree holds the items inserted, with their ids");
    }
}
static void sorted(Tree& t) {
    for (auto p = t.begin(); p != t.end() && p + 1 != t.end(); ++p) va_assert(!before(*(p + 1), *p), "the items are in Morton order");
}
static void find(Tree& t, const Ref& r, const Item& q) {
    auto p = t.findItem(q);
    holds(t, r);
    sorted(t);
    int n = 0;
    for (int k = 0; k < r.n; k++) n += before(r.it[k], q);
    va_assert(p - t.begin() == n, "the item found is the first that is not before the query");
}
static void box(Tree& t, const Ref& r, const Item& lo, const Item& hi) {
    Tree::IteratorContainer out;
    t.searchInBox(lo, hi, out);
    holds(t, r);
    int n = 0;
    for (int k = 0; k < r.n; k++) {
        bool in = true;
        for (int d = 0; d < TREE_D; d++) in = in && lo.values[d] <= r.it[k].values[d] && r.it[k].values[d] <= hi.values[d];
        n += in;
    }
    va_assert((int)out.size() == n, "a box search finds as many items as lie in the box");
    for (size_t i = 0; i < out.size(); i++) {
        va_assert(out[i] >= t.begin() && out[i] < t.end(), "an item found is in the tree");
        for (int d = 0; d < TREE_D; d++) va_assert(lo.values[d] <= out[i]->values[d] && out[i]->values[d] <= hi.values[d], "an item found lies in the box");
        for (size_t j = 0; j < i; j++) va_assert(out[i] != out[j], "an item is found once");
    }
}
static void add(Tree& t, Ref& r, Item i, bool reset) {
    t.insert(i, reset);
    if (reset) i.id = r.n;
    r.it[r.n++] = i;
}
#if TREE_D == 2
#define SPAN 5
#else
#define SPAN 3
#endif
#ifndef LIGHT
ENTRY spec_find() {
    Tree t;
    Ref r;
    int n = va_choice(va_tier() ? 4 : 3);
    for (int i = 0; i < n; i++) add(t, r, item(va_tier() && i == 2 ? 3 : SPAN, 7 - i), i != 0);
    find(t, r, item(SPAN, -1));
}
#endif
// queries and insertions in turns
ENTRY spec_turns() {
    Tree t;
    Ref r;
    int n = 1 + va_choice(3);
    for (int i = 0; i < n; i++) {
        add(t, r, item(va_tier() && TREE_D == 2 && i < 2 ? 3 : i < 2 || TREE_D == 2 ? 2 : 1, 10 + i), va_choice(2) == 0);
        switch (va_choice(3)) {
            case 0: t.sort(); sorted(t); break;
            case 1: find(t, r, r.it[0]); break;
            default: break;
        }
    }
    Item lo, hi;
    for (int d = 0; d < TREE_D; d++) lo.values[d] = V[0], hi.values[d] = V[2];
    if (va_choice(2)) box(t, r, lo, hi);
    else {
        int l = t.computeLevel(t.begin(), t.end());
        sorted(t);
        auto e = t.end() - 1;
        va_assert(l == Tree::Traits::distance(t.begin()->values, e->values), "the level of an interval is that of its first and last item");
        va_assert(t.computeLevel(t.begin(), t.begin() + 1) == Tree::Traits::distance(t.begin()->values, t.begin()->values), "the level of a single item");
    }
    holds(t, r);
}
ENTRY spec_box() {
    Tree t;
    Ref r;
    int n = va_choice(3), span = TREE_D == 2 ? 4 : 2;
    for (int i = 0; i < n; i++) add(t, r, item(span, 0), true);
    Item lo = item(TREE_D == 2 ? 3 : 2, -1), hi;
    for (int d = 0; d < TREE_D; d++) hi.values[d] = V[1 + va_choice(TREE_D == 2 ? 4 : 2)];
    box(t, r, lo, hi);
    va_reach("box searched");
}
// a whole grid, boxes around a centre
ENTRY spec_grid() {
    Tree t;
    Ref r;
    for (int x = -4; x < 4; x++)
        for (int y = -4; y < 4; y++) {
            Item i;
            for (int d = 0; d < TREE_D; d++) i.values[d] = d == 0 ? x : d == 1 ? y : (x + y) & 1;
            add(t, r, i, true);
        }
    Item c;
    for (int d = 0; d < TREE_D; d++) c.values[d] = d < 2 ? -3 + 2 * va_choice(4) : 0;
    TREE_T range = 1 + va_choice(3);
    Tree::IteratorContainer out;
    t.searchInBox(c, range, out);
    int n = 0;
    for (int k = 0; k < r.n; k++) {
        bool in = true;
        for (int d = 0; d < TREE_D; d++) in = in && c.values[d] - range <= r.it[k].values[d] && r.it[k].values[d] <= c.values[d] + range;
        n += in;
    }
    va_assert((int)out.size() == n, "a search around a centre finds the items within the range in every coordinate");
    for (auto p : out)
        for (int d = 0; d < TREE_D; d++) va_assert(c.values[d] - range <= p->values[d] && p->values[d] <= c.values[d] + range, "an item found is within the range");
    holds(t, r);
    sorted(t);
    find(t, r, c);
}
// equal items, many of them: the ordering given to the sort stays strict
ENTRY spec_equal() {
    Tree t;
    Ref r;
    int n = 18 + va_choice(3), kinds = 1 + va_choice(2);
    for (int k = 0; k < n; k++) {
        Item i;
        for (int d = 0; d < TREE_D; d++) i.values[d] = V[k % kinds];
        add(t, r, i, true);
    }
    find(t, r, r.it[0]);
    find(t, r, r.it[n - 1]);
    box(t, r, r.it[0], r.it[0]);
}
// an empty interval at an item has the level of the item; queries of an empty tree
ENTRY spec_none() {
    Tree t;
    Ref r;
    Item q = item(2, 3);
    find(t, r, q);
    box(t, r, q, q);
    va_assert(t.begin() == t.end() && t.size() == 0, "a new tree is empty");
    add(t, r, q, va_choice(2));
    va_assert(t.computeLevel(t.begin(), t.begin()) == Tree::Traits::distance(q.values, q.values), "the level of an empty interval at an item");
    box(t, r, q, q);
}
// ranges of items, with and without conversion
struct Conv {
    Item operator()(const int& v) {
        Item i;
        for (int d = 0; d < TREE_D; d++) i.values[d] = v + d;
        i.id = 100 + v;
        return i;
    }
};
ENTRY spec_ranges() {
    Tree t;
    Ref r;
    int before0 = va_choice(3);
    for (int i = 0; i < before0; i++) add(t, r, item(2, 5), va_choice(2) == 0);
    bool sortedBefore = before0 == 2;
    if (sortedBefore) t.sort();
    bool reset = va_choice(2);
    int n = va_choice(4);
    switch (va_choice(3)) {
        case 0: {
            std::vector<Item> v;
            for (int i = 0; i < n; i++) {
                Item x;
                for (int d = 0; d < TREE_D; d++) x.values[d] = V[(i + d) % NV];
                x.id = 40 + i;
                v.push_back(x);
            }
            if (reset) t.insert(v.begin(), v.end());
            else t.insert(v.begin(), v.end(), false);
            for (int i = 0; i < n; i++) {
                va_assert(v[i].id == 40 + i, "the items given are left as they are");
                Item x = v[i];
                if (reset) x.id = r.n;
                r.it[r.n++] = x;
            }
            break;
        }
        case 1: {
            std::list<Item> v;
            for (int i = 0; i < n; i++) {
                Item x;
                x.values[0] = V[i];
                x.id = 40 + i;
                v.push_back(x);
            }
            if (reset) t.insert(v.begin(), v.end());
            else t.insert(v.begin(), v.end(), false);
            for (Item x : v) {
                if (reset) x.id = r.n;
                r.it[r.n++] = x;
            }
            break;
        }
        default: {
            std::vector<int> v;
            for (int i = 0; i < n; i++) v.push_back(sortedBefore ? i - 2 : 3 - 2 * i);
            Conv c;
            if (reset) t.insert(v.begin(), v.end(), c);
            else t.insert(v.begin(), v.end(), c, false);
            for (int i = 0; i < n; i++) {
                Item x = c(v[i]);
                if (reset) x.id = r.n;
                r.it[r.n++] = x;
            }
        }
    }
    holds(t, r);
    Item q;
    if (sortedBefore) find(t, r, r.n ? r.it[r.n - 1] : q);
    find(t, r, q);
    Tree u(t);
    holds(u, r);
    sorted(u);
}
