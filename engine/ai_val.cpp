#include "ai.h"
#include <quadmath.h>
#include <unordered_set>
struct BVH {
    size_t operator()(const BitVec* v) const {
        size_t h = 1469598103934665603ull;
        for (u32 x : v->b) h = (h ^ x) * 1099511628211ull;
        return h;
    }
};
struct BVE {
    bool operator()(const BitVec* a, const BitVec* b) const { return a->b == b->b; }
};
const BitVec* internBits(const std::vector<u32>& b) {
    static std::unordered_set<const BitVec*, BVH, BVE> tab;
    BitVec t;
    t.b = b;
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    BitVec* n = new BitVec(t);
    tab.insert(n);
    return n;
}
AV mkBits(const std::vector<u32>& b) {
    bool cst = true;
    u64 v = 0;
    for (size_t i = 0; i < b.size(); i++) {
        if (b[i] > 1) cst = false;
        else if (b[i]) v |= 1ull << i;
    }
    if (cst) return mkI(v, b.size());
    AV a;
    a.k = K_IB;
    a.w = b.size();
    a.bv = internBits(b);
    return a;
}
static u64 qToU64(Q c) {
    Q m = ldexpq(1, 64);
    Q r = fmodq(c, m);
    if (r < 0) r += m;
    return (u64)r;
}
AV mkIPoly(P p, int w) {
    if (p->isConst()) return mkI(qToU64(p->cst()), w);
    // a bare bit-vector symbol keeps its bit form
    if (p->t.size() == 1 && p->t[0].second == 1) {
        const MonoV& m = MT.v[p->t[0].first];
        if (m.size() == 1 && m[0].second == 1 && SY[m[0].first].kind == S_BITS) {
            std::vector<u32> b = SY[m[0].first].bv->b;
            bool fit = true;
            for (size_t i = w; i < b.size(); i++)
                if (b[i]) fit = false;
            if (fit) {
                b.resize(w, 0);
                return mkBits(b);
            }
        }
    }
    for (auto& t : p->t)
        if (fabsq(t.second) > (Q)1e32) return mkTop(w);
    if (p->t.size() > 400) return mkTop(w);
    AV a;
    a.k = K_IP;
    a.w = w;
    a.p = p;
    return a;
}
AV mkFPoly(P p, int w) {
    if (p->isConst()) {
        AV a = mkF((double)p->cst(), 64);
        a.w = w;
        return a;
    }
    if (p->t.size() > 20000) return mkFTop(w);
    AV a;
    a.k = K_FP;
    a.w = w;
    a.p = p;
    return a;
}
struct AVH {
    size_t operator()(const std::vector<AV>* v) const {
        size_t h = 1469598103934665603ull;
        for (auto& x : *v) h = (h ^ x.c ^ x.k ^ (u64(x.obj) << 20)) * 1099511628211ull;
        return h;
    }
};
struct AVE {
    bool operator()(const std::vector<AV>* a, const std::vector<AV>* b) const { return *a == *b; }
};
AV mkAgg(const std::vector<AV>& v) {
    static std::unordered_set<const std::vector<AV>*, AVH, AVE> tab;
    auto it = tab.find(&v);
    AV a;
    a.k = K_AGG;
    if (it != tab.end()) a.ag = *it;
    else {
        auto* n = new std::vector<AV>(v);
        tab.insert(n);
        a.ag = n;
    }
    return a;
}
