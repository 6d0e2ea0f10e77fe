#include "poly.h"
#include <quadmath.h>
#include <unordered_set>
MonoTab MT;
std::deque<Sym> SY;

bool isIntQ(Q c) { return floorq(c) == c && fabsq(c) < (Q)1e33; }

struct PH {
    size_t operator()(P p) const { return p->h; }
};
struct PE {
    bool operator()(P a, P b) const { return a->h == b->h && a->t == b->t; }
};
static std::unordered_set<P, PH, PE> tab;

P mkPoly(std::vector<std::pair<u32, Q>>&& t) {
    Poly* p = new Poly;
    p->t = std::move(t);
    size_t h = 1469598103934665603ull;
    bool in = true;
    for (auto& x : p->t) {
        long double d = (long double)x.second;
        double dd = (double)d;
        u64 bits;
        memcpy(&bits, &dd, 8);
        h = (h ^ x.first) * 1099511628211ull;
        h = (h ^ bits) * 1099511628211ull;
        if (in) {
            if (!isIntQ(x.second)) in = false;
            for (auto& se : MT.v[x.first])
                if (!SY[se.first].isInt) in = false;
        }
    }
    p->h = h;
    p->isInt = in;
    auto it = tab.find(p);
    if (it != tab.end()) {
        delete p;
        return *it;
    }
    tab.insert(p);
    return p;
}
P pConst(Q c) {
    if (c == 0) return mkPoly({});
    return mkPoly({{0u, c}});
}
P pSym(u32 s) { return mkPoly({{MT.intern({{s, 1}}), (Q)1}}); }
P pAdd(P a, P b) {
    if (a->t.empty()) return b;
    if (b->t.empty()) return a;
    std::vector<std::pair<u32, Q>> r;
    r.reserve(a->t.size() + b->t.size());
    size_t i = 0, j = 0;
    while (i < a->t.size() || j < b->t.size()) {
        if (j >= b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) r.push_back(a->t[i++]);
        else if (i >= a->t.size() || b->t[j].first < a->t[i].first) r.push_back(b->t[j++]);
        else {
            Q c = a->t[i].second + b->t[j].second;
            Q m = fabsq(a->t[i].second) + fabsq(b->t[j].second);
            if (fabsq(c) > m * (Q)1e-30) r.push_back({a->t[i].first, c});
            i++, j++;
        }
    }
    return mkPoly(std::move(r));
}
P pScale(P a, Q c) {
    if (c == 0) return pConst(0);
    if (c == 1) return a;
    std::vector<std::pair<u32, Q>> r = a->t;
    for (auto& x : r) x.second *= c;
    return mkPoly(std::move(r));
}
P pSub(P a, P b) {
    if (a == b) return pConst(0);
    return pAdd(a, pScale(b, -1));
}
// reduction of a monomial: sin^2 -> 1-cos^2, sqrt^2 -> arg, inv(p)*p handled for single symbol p
static bool reduceMono(u32 m, P& out) {
    const MonoV mv = MT.v[m];
    for (size_t k = 0; k < mv.size(); k++) {
        const Sym& s = SY[mv[k].first];
        if (s.kind != S_FUN) continue;
        if (mv[k].second >= 2 && (s.fn == F_SIN || s.fn == F_SQRT)) {
            MonoV rest = mv;
            rest[k].second -= 2;
            if (rest[k].second == 0) rest.erase(rest.begin() + k);
            P r = mkPoly({{MT.intern(rest), (Q)1}});
            P f;
            if (s.fn == F_SIN) {
                P c = pSym(mkFun(F_COS, s.a, nullptr, false));
                f = pSub(pConst(1), pMul(c, c));
            } else
                f = s.a;
            out = pMul(r, f);
            return true;
        }
        if (s.fn == F_INV && s.a->t.size() == 1) {
            // inv(c*mono): cancel common symbols
            const MonoV am = MT.v[s.a->t[0].first];
            if (am.size() == 1 && am[0].second == 1) {
                for (size_t j = 0; j < mv.size(); j++)
                    if (mv[j].first == am[0].first) {
                        MonoV rest;
                        for (size_t q = 0; q < mv.size(); q++) {
                            auto e = mv[q];
                            if (q == j || q == k) e.second--;
                            if (e.second) rest.push_back(e);
                        }
                        out = pScale(mkPoly({{MT.intern(rest), (Q)1}}), (Q)1 / s.a->t[0].second);
                        P o2;
                        if (out->t.size() == 1 && reduceMono(out->t[0].first, o2)) out = pScale(o2, out->t[0].second);
                        return true;
                    }
            }
        }
    }
    return false;
}
P pMul(P a, P b) {
    if (a->isConst()) return pScale(b, a->cst());
    if (b->isConst()) return pScale(a, b->cst());
    std::map<u32, std::pair<Q, Q>> acc;  // sum and sum of magnitudes
    P extra = nullptr;
    for (auto& x : a->t)
        for (auto& y : b->t) {
            u32 m = MT.mul(x.first, y.first);
            P red;
            if (reduceMono(m, red)) {
                P e = pScale(red, x.second * y.second);
                extra = extra ? pAdd(extra, e) : e;
            } else
            {
                Q c = x.second * y.second;
                auto& e = acc[m];
                e.first += c;
                e.second += fabsq(c);
            }
        }
    std::vector<std::pair<u32, Q>> r;
    for (auto& x : acc)
        if (fabsq(x.second.first) > x.second.second * (Q)1e-30) r.push_back({x.first, x.second.first});
    P p = mkPoly(std::move(r));
    return extra ? pAdd(p, extra) : p;
}
P pSubst(P p, u32 s, P r) {
    bool has = false;
    for (auto& x : p->t)
        for (auto& se : MT.v[x.first])
            if (se.first == s) has = true;
    if (!has) return p;
    P out = pConst(0);
    for (auto& x : p->t) {
        MonoV rest;
        u32 e = 0;
        for (auto& se : MT.v[x.first]) {
            if (se.first == s) e = se.second;
            else rest.push_back(se);
        }
        P term = mkPoly({{MT.intern(rest), x.second}});
        while (e--) term = pMul(term, r);
        out = pAdd(out, term);
    }
    return out;
}
u32 mkSym(const std::string& name, bool isInt, LD lo, LD hi) {
    static std::map<std::string, u32> idx;
    std::string key = name + (isInt ? "#i" : "#r") + std::to_string((double)lo) + "," + std::to_string((double)hi);
    auto it = idx.find(key);
    if (it != idx.end()) return it->second;
    u32 id = SY.size();
    SY.push_back(Sym{name, isInt, S_INPUT, 0, nullptr, nullptr, nullptr, lo, hi});
    idx[key] = id;
    return id;
}
u32 mkFun(int fn, P a, P b, bool isInt) {
    static std::map<std::pair<int, std::pair<P, P>>, u32> idx;
    auto key = std::make_pair(fn, std::make_pair(a, b));
    auto it = idx.find(key);
    if (it != idx.end()) return it->second;
    static const char* nm[] = {"", "sin", "cos", "sqrt", "inv", "exp", "log", "floor", "atan", "atan2", "idiv", "fbits", "tan", "opaque"};
    u32 id = SY.size();
    LD lo = -INF, hi = INF;
    if (fn == F_SIN || fn == F_COS) lo = -1, hi = 1;
    if (fn == F_SQRT || fn == F_EXP) lo = 0;
    SY.push_back(Sym{std::string(nm[fn]) + "(" + pStr(a) + (b ? "," + pStr(b) : "") + ")", isInt, S_FUN, fn, a, b, nullptr, lo, hi});
    idx[key] = id;
    return id;
}
u32 mkBitsSym(const BitVec* bv) {
    static std::map<const BitVec*, u32> idx;
    auto it = idx.find(bv);
    if (it != idx.end()) return it->second;
    u32 id = SY.size();
    LD lo = 0, hi = 0;
    for (size_t i = 0; i < bv->b.size(); i++) {
        if (bv->b[i] == 1) lo += ldexpl(1, i);
        if (bv->b[i] != 0) hi += ldexpl(1, i);
    }
    SY.push_back(Sym{"bits" + std::to_string(id), true, S_BITS, 0, nullptr, nullptr, bv, lo, hi});
    idx[bv] = id;
    return id;
}
std::string pStr(P p) {
    if (p->t.empty()) return "0";
    std::string s;
    for (auto& x : p->t) {
        if (s.size() > 300) return s + "...";
        char buf[64];
        snprintf(buf, sizeof buf, "%.10Lg", (long double)x.second);
        if (!s.empty()) s += " + ";
        s += buf;
        for (auto& se : MT.v[x.first]) {
            s += "*" + SY[se.first].name;
            if (se.second > 1) s += "^" + std::to_string(se.second);
        }
    }
    return s;
}
void pSyms(P p, std::set<u32>& out) {
    for (auto& x : p->t)
        for (auto& se : MT.v[x.first]) out.insert(se.first);
}
void pBaseSyms(P p, std::set<u32>& out) {
    for (auto& x : p->t)
        for (auto& se : MT.v[x.first]) {
            const Sym& s = SY[se.first];
            if (s.kind == S_FUN) {
                if (s.a) pBaseSyms(s.a, out);
                if (s.b) pBaseSyms(s.b, out);
                if (s.fn == F_OPAQUE || s.fn == F_FBITS) out.insert(se.first);
            } else
                out.insert(se.first);
        }
}
