// Polynomial forms over interned symbols: the numeric part of the abstract domain.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

typedef __float128 Q;
typedef long double LD;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

static const LD INF = HUGE_VALL;

struct Iv {
    LD lo, hi;
};
inline Iv mkIv(LD a, LD b) { return Iv{a, b}; }
inline LD mulE(LD a, LD b) { return (a == 0 || b == 0) ? 0 : a * b; }
inline Iv ivAdd(Iv a, Iv b) { return {a.lo + b.lo, a.hi + b.hi}; }
inline Iv ivMul(Iv a, Iv b) {
    LD p[4] = {mulE(a.lo, b.lo), mulE(a.lo, b.hi), mulE(a.hi, b.lo), mulE(a.hi, b.hi)};
    return {std::min(std::min(p[0], p[1]), std::min(p[2], p[3])), std::max(std::max(p[0], p[1]), std::max(p[2], p[3]))};
}
inline Iv ivScale(Iv a, LD c) { return c >= 0 ? Iv{mulE(a.lo, c), mulE(a.hi, c)} : Iv{mulE(a.hi, c), mulE(a.lo, c)}; }
inline LD ipow(LD x, int e) {
    LD r = 1;
    while (e-- > 0) r = mulE(r, x);
    return r;
}
inline Iv ivPow(Iv a, int e) {
    if (e == 1) return a;
    if (e % 2 == 1) return {ipow(a.lo, e), ipow(a.hi, e)};
    LD l = ipow(a.lo, e), h = ipow(a.hi, e);
    if (a.lo <= 0 && a.hi >= 0) return {0, std::max(l, h)};
    return {std::min(l, h), std::max(l, h)};
}

// ---------------------------------------------------------------- monomials
typedef std::vector<std::pair<u32, u32>> MonoV;  // (sym, exp) sorted
struct MonoTab {
    std::vector<MonoV> v;
    std::map<MonoV, u32> idx;
    std::unordered_map<u64, u32> mulc;
    MonoTab() { v.push_back({}), idx[{}] = 0; }
    u32 intern(const MonoV& m) {
        auto it = idx.find(m);
        if (it != idx.end()) return it->second;
        u32 id = v.size();
        v.push_back(m);
        idx[m] = id;
        return id;
    }
    u32 mul(u32 a, u32 b) {
        if (!a) return b;
        if (!b) return a;
        if (a > b) std::swap(a, b);
        u64 k = (u64(a) << 32) | b;
        auto it = mulc.find(k);
        if (it != mulc.end()) return it->second;
        MonoV r;
        size_t i = 0, j = 0;
        const MonoV x = v[a], y = v[b];
        while (i < x.size() || j < y.size()) {
            if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
            else if (i >= x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
            else {
                r.push_back({x[i].first, x[i].second + y[j].second});
                i++, j++;
            }
        }
        u32 id = intern(r);
        mulc[k] = id;
        return id;
    }
};
extern MonoTab MT;

struct Poly {
    std::vector<std::pair<u32, Q>> t;  // (mono, coef), sorted by mono id, no zero coef
    bool isInt;                        // integer valued (all int symbols, int coefs)
    size_t h;
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    Q cst() const {
        for (auto& x : t)
            if (x.first == 0) return x.second;
        return 0;
    }
};
typedef const Poly* P;

enum SymKind { S_INPUT, S_BITS, S_FUN };
enum Fn { F_NONE, F_SIN, F_COS, F_SQRT, F_INV, F_EXP, F_LOG, F_FLOOR, F_ATAN, F_ATAN2, F_IDIV, F_FBITS, F_TAN, F_OPAQUE };
struct BitVec {
    std::vector<u32> b;  // lsb first; 0,1 const; 2 = top; >=4: 2*(var+2)+neg
};
struct Sym {
    std::string name;
    bool isInt;
    int kind;
    int fn;
    P a, b;
    const BitVec* bv;
    LD lo, hi;
};
extern std::deque<Sym> SY;

P mkPoly(std::vector<std::pair<u32, Q>>&& t);
P pConst(Q c);
P pSym(u32 s);
P pAdd(P a, P b);
P pSub(P a, P b);
P pScale(P a, Q c);
P pMul(P a, P b);
inline P pAddC(P a, Q c) { return pAdd(a, pConst(c)); }
inline P pNeg(P a) { return pScale(a, -1); }
P pSubst(P p, u32 s, P r);
u32 mkSym(const std::string& name, bool isInt, LD lo, LD hi);
u32 mkFun(int fn, P a, P b, bool isInt);
u32 mkBitsSym(const BitVec* bv);
std::string pStr(P p);
void pSyms(P p, std::set<u32>& out);       // direct symbols
void pBaseSyms(P p, std::set<u32>& out);   // transitively, only INPUT/BITS
bool isIntQ(Q c);
