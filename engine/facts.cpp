#include "facts.h"
#include <ctime>
u64 rngState = 88172645463325252ull;
static u64 rnd() {
    rngState ^= rngState << 13;
    rngState ^= rngState >> 7;
    rngState ^= rngState << 17;
    return rngState;
}
static LD rnd01() { return (LD)(rnd() >> 11) / 9007199254740992.0L; }

void DBM::grow(u32 c) {
    std::vector<Bound> e((size_t)c * c, Bound{INF, false});
    for (u32 i = 0; i < n; i++)
        for (u32 j = 0; j < n; j++) e[(size_t)i * c + j] = d[(size_t)i * cap + j];
    d.swap(e);
    cap = c;
}
u32 DBM::idx(u32 sym) {
    auto it = ix.find(sym);
    if (it != ix.end()) return it->second;
    if (n == cap) grow(cap * 2);
    u32 i = n++;
    syms.push_back(sym);
    ix[sym] = i;
    at(i, i) = {0, false};
    LD lo = SY[sym].lo, hi = SY[sym].hi;
    // close against base range
    for (u32 j = 0; j < i; j++) {
        at(i, j) = bAdd({hi, false}, at(0, j));
        at(j, i) = bAdd(at(j, 0), {-lo, false});
    }
    at(i, 0) = {hi, false};
    at(0, i) = {-lo, false};
    return i;
}
bool DBM::addEdge(u32 a, u32 b, Bound w) {
    if (!tighter(w, at(a, b))) return true;
    Bound back = bAdd(w, at(b, a));
    if (back.c < 0 || (back.c == 0 && back.s)) {
        bad = true;
        return false;
    }
    // D[i][j] = min(D[i][j], D[i][a] + w + D[b][j])
    std::vector<Bound> col(n), row(n);
    for (u32 i = 0; i < n; i++) col[i] = at(i, a), row[i] = at(b, i);
    for (u32 i = 0; i < n; i++) {
        if (col[i].c == INF) continue;
        Bound iw = bAdd(col[i], w);
        for (u32 j = 0; j < n; j++) {
            Bound c = bAdd(iw, row[j]);
            if (tighter(c, at(i, j))) at(i, j) = c;
        }
    }
    return true;
}

// derived bit variables: the exclusive or of two others
static const u32 XBASE = 1u << 28;
static std::vector<std::pair<u32, u32>> xorDefs;
static std::map<std::pair<u32, u32>, u32> xorIdx;
static bool isXor(u32 var) { return var >= XBASE; }
u32 xorLit(u32 p, u32 q) {
    if (p > q) std::swap(p, q);
    if (p == 0) return q;
    if (p == 1) return q < 2 ? 1 - q : q == 2 ? 2 : q ^ 1;
    if (p == 2 || p == 3 || q == 2 || q == 3) return 2;
    if (p == q) return 0;
    if ((p ^ q) == 1) return 1;
    u32 neg = (p & 1) ^ (q & 1);
    p &= ~1u;
    q &= ~1u;
    for (int i = 0; i < 2; i++) {
        u32 x = i ? p : q, o = i ? q : p;
        if (isXor(x >> 1)) {
            auto d = xorDefs[(x >> 1) - XBASE];
            if (d.first == o) return d.second ^ neg;
            if (d.second == o) return d.first ^ neg;
        }
    }
    auto k = std::make_pair(p, q);
    auto it = xorIdx.find(k);
    u32 v;
    if (it != xorIdx.end()) v = it->second;
    else {
        v = XBASE + xorDefs.size();
        xorDefs.push_back(k);
        xorIdx[k] = v;
    }
    return (v << 1) ^ neg;
}
int Facts::bit(u32 lit) const {
    if (lit == 0) return 0;
    if (lit == 1) return 1;
    if (lit < 4) return -1;
    if (!bits) return -1;
    auto it = bits->find(lit >> 1);
    if (it == bits->end()) {
        if (isXor(lit >> 1)) {
            auto d = xorDefs[(lit >> 1) - XBASE];
            int x = bit(d.first);
            if (x < 0) return -1;
            int y = bit(d.second);
            if (y < 0) return -1;
            return x ^ y ^ (int)(lit & 1);
        }
        return -1;
    }
    return it->second ^ (lit & 1);
}
bool Facts::addBit(u32 var, bool v) {
    int cur = bit(var << 1);
    if (cur >= 0) return cur == (int)v;
    if (!bits) bits = std::make_shared<std::map<u32, bool>>();
    else if (bits.use_count() > 1) bits = std::make_shared<std::map<u32, bool>>(*bits);
    (*bits)[var] = v;
    // unit propagation through the derived (exclusive-or) bits that are fixed
    for (bool again = true; again;) {
        again = false;
        for (auto it = bits->lower_bound(XBASE); it != bits->end(); ++it) {
            auto d = xorDefs[it->first - XBASE];
            int x = bit(d.first), y = bit(d.second);
            if (x >= 0 && y >= 0) {
                if ((x ^ y) != (int)it->second) return false;
            } else if (x >= 0) {
                u32 t = d.second >> 1;
                bool val = (x ^ (int)it->second) ^ (d.second & 1);
                if (bits->count(t)) { if ((*bits)[t] != val) return false; }
                else { (*bits)[t] = val; again = true; }
            } else if (y >= 0) {
                u32 t = d.first >> 1;
                bool val = (y ^ (int)it->second) ^ (d.first & 1);
                if (bits->count(t)) { if ((*bits)[t] != val) return false; }
                else { (*bits)[t] = val; again = true; }
            }
        }
    }
    return true;
}
static void xorBases(u32 var, std::set<u32>& out) {
    if (!isXor(var)) return;
    auto d = xorDefs[var - XBASE];
    for (u32 l : {d.first, d.second})
        if (out.insert(l >> 1).second) xorBases(l >> 1, out);
}
// completes the assignment of the derived bits; false when it contradicts the fixed ones
static bool xorComplete(const std::map<u32, bool>& fixed, std::map<u32, bool>& bits) {
    std::function<bool(u32)> val = [&](u32 lit) -> bool {
        u32 v = lit >> 1;
        bool r;
        if (isXor(v)) {
            auto d = xorDefs[v - XBASE];
            r = val(d.first) ^ val(d.second);
        } else
            r = bits.count(v) ? bits[v] : false;
        return r ^ (lit & 1);
    };
    for (auto& fx : fixed) {
        if (!isXor(fx.first)) continue;
        if (val(fx.first << 1) == fx.second) continue;
        auto d = xorDefs[fx.first - XBASE];
        bool done = false;
        for (u32 l : {d.first, d.second})
            if (!isXor(l >> 1) && !fixed.count(l >> 1)) {
                bits[l >> 1] = !(bits.count(l >> 1) ? bits[l >> 1] : false);
                done = true;
                break;
            }
        if (!done) return false;
    }
    for (auto& b : bits)
        if (isXor(b.first)) b.second = val(b.first << 1);
    for (auto& fx : fixed)
        if (isXor(fx.first) && val(fx.first << 1) != fx.second) return false;
    return true;
}

// interval of a function atom from its argument
static Iv funIv(const Sym& s, Iv a, Iv b) {
    static const LD PI = 3.14159265358979323846264338327950288L;
    const LD e = 1e-15L;
    switch (s.fn) {
        case F_SIN:
        case F_COS: {
            LD sh = s.fn == F_SIN ? PI / 2 : 0;  // sin x = cos(x - pi/2)
            LD lo = a.lo - sh, hi = a.hi - sh;
            if (!(hi - lo < 2 * PI)) return {-1, 1};
            LD c1 = cosl(lo), c2 = cosl(hi);
            LD mn = std::min(c1, c2) - e, mx = std::max(c1, c2) + e;
            if (floorl(hi / (2 * PI) + 1e-18L) >= ceill(lo / (2 * PI) - 1e-18L)) mx = 1;
            if (floorl((hi - PI) / (2 * PI) + 1e-18L) >= ceill((lo - PI) / (2 * PI) - 1e-18L)) mn = -1;
            return {std::max(mn, (LD)-1), std::min(mx, (LD)1)};
        }
        case F_SQRT: return {sqrtl(std::max(a.lo, (LD)0)) * (1 - e), a.hi < 0 ? 0 : sqrtl(a.hi) * (1 + e)};
        case F_INV:
            if (a.lo > 0 || a.hi < 0) {
                LD l = a.hi == INF ? 0 : 1 / a.hi, h = a.lo == -INF ? 0 : 1 / a.lo;
                return {std::min(l, h) - fabsl(l) * e, std::max(l, h) + fabsl(h) * e};
            }
            if (a.lo == 0 && a.hi > 0) return {1 / a.hi * (1 - e), INF};
            if (a.hi == 0 && a.lo < 0) return {-INF, 1 / a.lo * (1 - e)};
            return {-INF, INF};
        case F_EXP: return {expl(a.lo) * (1 - e), expl(a.hi) * (1 + e)};
        case F_LOG: return {a.lo <= 0 ? -INF : logl(a.lo) - e, a.hi <= 0 ? -INF : logl(a.hi) + e};
        case F_FLOOR: return {floorl(a.lo), floorl(a.hi)};
        case F_ATAN: return {atanl(a.lo) - e, atanl(a.hi) + e};
        case F_ATAN2: return {-PI, PI};
        case F_TAN: return {-INF, INF};
        case F_IDIV:
            if (b.lo > 0 && a.lo >= 0) return {floorl(a.lo / b.hi), floorl(a.hi / b.lo)};
            return {-INF, INF};
    }
    return {-INF, INF};
}
static Iv isect(Iv a, Iv b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }

Iv Facts::range(u32 sym) const {
    const Sym& s = SY[sym];
    Iv r{s.lo, s.hi};
    if (dbm) {
        int i = dbm->find(sym);
        if (i >= 0) {
            Bound hi = dbm->at(i, 0), lo = dbm->at(0, i);
            r = isect(r, {-lo.c, hi.c});
        }
    }
    if (s.kind == S_FUN && s.a) {
        Iv a = eval(s.a), b = s.b ? eval(s.b) : Iv{0, 0};
        r = isect(r, funIv(s, a, b));
    }
    if (s.kind == S_BITS && bits) {
        LD lo = 0, hi = 0;
        for (size_t i = 0; i < s.bv->b.size(); i++) {
            int v = bit(s.bv->b[i]);
            if (v == 1) lo += ldexpl(1, i);
            if (v != 0) hi += ldexpl(1, i);
        }
        r = isect(r, {lo, hi});
    }
    return r;
}
P Facts::norm(P p) const {
    for (auto& s : subst) p = pSubst(p, s.first, s.second);
    return p;
}
Iv Facts::eval(P p) const {
    Iv r{0, 0};
    for (auto& x : p->t) {
        Iv m{1, 1};
        for (auto& se : MT.v[x.first]) m = ivMul(m, ivPow(range(se.first), se.second));
        r = ivAdd(r, ivScale(m, (LD)x.second));
    }
    return r;
}
// recognise a*(x - y) + c or a*x + c
static bool asDiff(P p, int& x, int& y, LD& c, LD& a) {
    x = y = -1;
    c = 0;
    a = 0;
    LD ax = 0, ay = 0;
    for (auto& t : p->t) {
        if (t.first == 0) {
            c = (LD)t.second;
            continue;
        }
        const MonoV& m = MT.v[t.first];
        if (m.size() != 1 || m[0].second != 1) return false;
        if (t.second > 0) {
            if (x >= 0) return false;
            x = m[0].first, ax = (LD)t.second;
        } else {
            if (y >= 0) return false;
            y = m[0].first, ay = -(LD)t.second;
        }
    }
    if (x < 0 && y < 0) return false;
    if (x >= 0 && y >= 0 && ax != ay) return false;
    a = x >= 0 ? ax : ay;
    return true;
}
static P divCommon(const Facts& f, P p);
// a linear form split into scaled differences, each bounded below by the zone
struct Tr {
    const DBM& d;
    std::vector<std::pair<int, LD>> pos, neg;  // zone index, remaining amount
    int work = 0;
    bool go(size_t i, LD c, bool strictOk, bool strict) {
        while (i < pos.size() && pos[i].second <= 0) i++;
        if (i == pos.size()) {
            for (auto& n : neg)
                if (n.second > 0) return false;
            return c > 0 || (c == 0 && (!strict || strictOk));
        }
        if (++work > 3000) return false;
        for (auto& n : neg) {
            if (n.second <= 0) continue;
            Bound b = d.at(n.first, pos[i].first);  // y - x <= b
            if (!(b.c < 1e17L)) continue;
            LD m = std::min(pos[i].second, n.second);
            pos[i].second -= m;
            n.second -= m;
            bool r = go(i, c - m * b.c, strictOk || b.s, strict);
            pos[i].second += m;
            n.second += m;
            if (r) return true;
        }
        return false;
    }
};
static bool transport(const Facts& f, P p, bool strict) {
    if (p->t.size() > 13) return false;
    Tr t{*f.dbm};
    LD c = 0, sum = 0;
    Q mx = 0;
    for (auto& x : p->t)
        if (!MT.v[x.first].empty()) mx = std::max(mx, x.second < 0 ? -x.second : x.second);
    if (mx <= 0) return false;
    for (auto& x : p->t) {
        const MonoV& m = MT.v[x.first];
        if (m.empty()) {
            c += (LD)(x.second / mx);
            continue;
        }
        if (m.size() != 1 || m[0].second != 1) return false;
        // amounts are multiples of 1/12 of the largest one, up to a rounding that is accounted for
        Q k0 = x.second / mx;
        LD k = rintl((LD)k0 * 12), err = fabsl((LD)(k0 * 12 - (Q)k));
        if (err > 1e-15L) return false;
        if (err > 0) {
            Iv r = f.eval(mkPoly({{x.first, (Q)1}}));
            if (!(r.lo > -INF && r.hi < INF)) return false;
            c -= err / 12 * std::max(fabsl(r.lo), fabsl(r.hi)) + 1e-30L;
        }
        int ix = f.dbm->find(m[0].first);
        if (ix < 0) return false;
        if (k > 0) t.pos.push_back({ix, k});
        else t.neg.push_back({ix, -k});
        sum += k;
    }
    if (t.pos.size() + t.neg.size() < 3 || t.pos.size() + t.neg.size() > 12) return false;
    if (sum > 0) t.neg.push_back({0, sum});
    if (sum < 0) t.pos.push_back({0, -sum});
    return t.go(0, c * 12, false, strict);
}
// One query explores at most a fixed number of derived goals, and none of them twice at the same depth.
static int proveLevel = 0, proveWork = 0;
static std::map<std::pair<P, bool>, int> proveFailed;
static bool proveGE1(const Facts& f, P p, bool strict, int depth);
bool proveGE(const Facts& f, P p, bool strict, int depth) {
    if (!proveLevel) {
        proveWork = 0;
        proveFailed.clear();
    }
    if (proveLevel && depth >= 2) {
        if (++proveWork > 20000) return false;
        auto it = proveFailed.find({p, strict});
        if (it != proveFailed.end() && it->second <= depth) return false;
    }
    proveLevel++;
    bool r;
    try {
        r = proveGE1(f, p, strict, depth);
    } catch (...) {
        proveLevel = 0;
        throw;
    }
    proveLevel--;
    if (!r && proveLevel && depth >= 2) {
        auto q = proveFailed.insert({{p, strict}, depth});
        if (!q.second && q.first->second > depth) q.first->second = depth;
    }
    return r;
}
static bool proveGE1(const Facts& f, P p, bool strict, int depth) {
    p = divCommon(f, p);
    if (p->isInt && strict) {
        p = pAddC(p, -1);
        strict = false;
    }
    if (p->isConst()) return strict ? p->cst() > 0 : p->cst() >= 0;
    if (depth == 0) {
        p = f.norm(p);
        if (p->isConst()) return strict ? p->cst() > 0 : p->cst() >= 0;
    }
    Iv r = f.eval(p);
    if (strict ? r.lo > 0 : r.lo >= 0) return true;
    int x, y;
    LD c, a;
    bool diff = asDiff(p, x, y, c, a);
    if (diff && f.dbm) {
        // a*(x-y)+c >= 0  <=>  y - x <= c/a
        int ix = x >= 0 ? f.dbm->find(x) : 0, iy = y >= 0 ? f.dbm->find(y) : 0;
        if (ix >= 0 && iy >= 0) {
            Bound b = f.dbm->at(iy, ix);
            LD q = c / a;
            if (p->isInt) q = floorl(q);
            if (b.c < q || (b.c == q && (!strict || b.s))) return true;
        }
    }
    if (depth <= 1 && f.dbm && transport(f, p, strict)) return true;
    if (depth >= 6) return false;
    bool atoms = false;
    if (diff) {
        if (x >= 0 && SY[x].kind == S_FUN) atoms = true;
        if (y >= 0 && SY[y].kind == S_FUN) atoms = true;
        if (f.raw.empty() && !atoms) return false;  // zones are exact on differences
    }
    // facts: p - k*fact provable by intervals
    if (depth <= 1) {
        for (auto& fc : f.raw) {
            if (fc.k == FK_NE) continue;
            P d = pSub(p, fc.p);
            if (d->isConst()) {
                if (d->cst() > 0 || (d->cst() == 0 && (!strict || fc.k == FK_GT))) return true;
                continue;
            }
            if (d->t.size() < p->t.size() && f.eval(d).lo >= 0 && (!strict || fc.k == FK_GT)) return true;
            if (fc.k == FK_EQ) {
                P e = pAdd(p, fc.p);
                Iv ev = f.eval(e);
                if (strict ? ev.lo > 0 : ev.lo >= 0) return true;
            }
        }
    }
    // symbolic bound elimination (range test): replace a symbol by a symbolic bound
    std::set<u32> syms;
    pSyms(p, syms);
    if (syms.size() > 12) return false;
    struct SB {
        u32 s;
        P b;
        bool upper;
    };
    std::vector<SB> sbs;
    for (auto& fc : f.raw) {
        if (fc.k == FK_NE) continue;
        for (auto& t : fc.p->t) {
            const MonoV& m = MT.v[t.first];
            if (m.size() != 1 || m[0].second != 1 || !syms.count(m[0].first)) continue;
            // t.c * s + rest >= 0
            u32 s = m[0].first;
            bool lin = true;
            int cnt = 0;
            for (auto& t2 : fc.p->t)
                for (auto& se : MT.v[t2.first])
                    if (se.first == s) cnt++;
            if (cnt != 1) lin = false;
            if (!lin) continue;
            if (SY[s].isInt && fc.p->isInt && !(t.second == 1 || t.second == -1)) continue;
            P rest = pSub(fc.p, mkPoly({{t.first, t.second}}));
            P b = pScale(rest, (Q)-1 / t.second);  // s >= b if c>0, s <= b if c<0
            sbs.push_back({s, b, t.second < 0});
            if (fc.k == FK_EQ) sbs.push_back({s, b, t.second > 0});
        }
    }
    // intrinsic bounds of atoms
    for (u32 s : syms) {
        const Sym& S = SY[s];
        if (S.kind == S_FUN && S.fn == F_FLOOR) {
            sbs.push_back({s, S.a, true});
            sbs.push_back({s, pAddC(S.a, -1), false});
        }
    }
    if (f.dbm && !diff)
        for (u32 s : syms) {
            int i = f.dbm->find(s);
            if (i < 0) continue;
            for (u32 j = 1; j < f.dbm->n; j++) {
                if ((int)j == i) continue;
                Bound u = f.dbm->at(i, j), l = f.dbm->at(j, i);
                if (u.c < INF && u.c <= 1 && u.c >= -1) sbs.push_back({s, pAddC(pSym(f.dbm->syms[j]), u.c), true});
                if (l.c < INF && l.c <= 1 && l.c >= -1) sbs.push_back({s, pAddC(pSym(f.dbm->syms[j]), -l.c), false});
                if (sbs.size() > 40) break;
            }
        }
    for (auto& sb : sbs) {
        // p = A*s + B, linear in s?
        P A = pConst(0), B = pConst(0);
        bool lin = true;
        for (auto& t : p->t) {
            MonoV rest;
            u32 e = 0;
            for (auto& se : MT.v[t.first])
                if (se.first == sb.s) e = se.second;
                else rest.push_back(se);
            if (e > 1) {
                lin = false;
                break;
            }
            P term = mkPoly({{MT.intern(rest), t.second}});
            if (e) A = pAdd(A, term);
            else B = pAdd(B, term);
        }
        if (!lin || A->t.empty()) continue;
        Iv ai = f.eval(A);
        bool ok = sb.upper ? ai.hi <= 0 : ai.lo >= 0;
        if (!ok && depth < 3) ok = sb.upper ? proveGE(f, pNeg(A), false, depth + 3) : proveGE(f, A, false, depth + 3);
        if (!ok) continue;
        P np = pAdd(pMul(A, sb.b), B);
        if (np == p) continue;
        if (proveGE(f, np, strict, depth + 1)) return true;
    }
    // real-valued: small branch and bound
    if (!p->isInt && depth == 0) {
        if (bnbProve(f, p, strict ? -1e-18L : 0, 400)) return true;
    }
    return false;
}
Tri decideGE(const Facts& f, P p, bool strict, int depth) {
    p = f.norm(p);
    if (p->isConst()) return (strict ? p->cst() > 0 : p->cst() >= 0) ? YES : NO;
    if (proveGE(f, p, strict, depth)) return YES;
    if (proveGE(f, pNeg(p), !strict, depth)) return NO;
    return UNK;
}
Tri decideEQ(const Facts& f, P p) {
    p = divCommon(f, f.norm(p));
    if (p->isConst()) return p->cst() == 0 ? YES : NO;
    bool ge = proveGE(f, p, false), le = proveGE(f, pNeg(p), false);
    if (ge && le) return YES;
    if (ge && proveGE(f, p, true)) return NO;
    if (le && proveGE(f, pNeg(p), true)) return NO;
    for (auto& fc : f.raw)
        if (fc.k == FK_NE) {
            if (fc.p == p || pNeg(fc.p) == p) return NO;
            P d = f.norm(fc.p);
            if (d == p || pNeg(d) == p) return NO;
        }
    return UNK;
}
// divides out common factors of known sign (p has the sign of the result)
static P divCommon(const Facts& f, P p) {
    if (p->t.size() < 2) return p;
    while (true) {
        bool done = true;
        const MonoV m0 = MT.v[p->t[0].first];
        if (p->t[0].first == 0 || m0.empty()) return p;
        for (auto& se : m0) {
            bool all = true;
            for (auto& t : p->t) {
                bool has = false;
                for (auto& x : MT.v[t.first])
                    if (x.first == se.first) has = true;
                if (!has) {
                    all = false;
                    break;
                }
            }
            if (!all) continue;
            Iv r = f.range(se.first);
            if (!(r.lo > 0 || r.hi < 0)) continue;
            std::vector<std::pair<u32, Q>> o;
            for (auto& t : p->t) {
                MonoV mv;
                for (auto x : MT.v[t.first]) {
                    if (x.first == se.first) x.second--;
                    if (x.second) mv.push_back(x);
                }
                o.push_back({MT.intern(mv), r.lo > 0 ? t.second : -t.second});
            }
            std::sort(o.begin(), o.end());
            p = mkPoly(std::move(o));
            done = false;
            break;
        }
        if (done || p->isConst()) return p;
    }
}
bool Facts::add(P p, FactKind k) {
    p = divCommon(*this, norm(p));
    if (p->isInt && k == FK_GT) {
        p = pAddC(p, -1);
        k = FK_GE;
    }
    if (p->isConst()) {
        Q c = p->cst();
        bool ok = k == FK_GE ? c >= 0 : k == FK_GT ? c > 0 : k == FK_EQ ? c == 0 : c != 0;
        if (!ok) bad = true;
        return ok;
    }
    if (k == FK_NE) {
        if (decideEQ(*this, p) == YES) {
            bad = true;
            return false;
        }
        if (p->isInt) {
            if (proveGE(*this, p, false)) return add(p, FK_GT);
            if (proveGE(*this, pNeg(p), false)) return add(pNeg(p), FK_GT);
        }
        raw.push_back({p, k});
        return true;
    }
    int x, y;
    LD c, a;
    if (asDiff(p, x, y, c, a)) {
        if (!dbm) dbm = std::make_shared<DBM>();
        else if (dbm.use_count() > 1) dbm = std::make_shared<DBM>(*dbm);
        u32 ix = x >= 0 ? dbm->idx(x) : 0, iy = y >= 0 ? dbm->idx(y) : 0;
        LD q = c / a;
        if (p->isInt && k != FK_EQ) q = floorl(q);
        if (p->isInt && k == FK_EQ && floorl(q) != q) {
            bad = true;
            return false;
        }
        if (!dbm->addEdge(iy, ix, {q, k == FK_GT})) {
            bad = true;
            return false;
        }
        if (k == FK_EQ) {
            if (!dbm->addEdge(ix, iy, {-q, false})) {
                bad = true;
                return false;
            }
        }
        // re-check disequalities that may have become contradictions / tightenings
        if (raw.size()) {
            std::vector<Fact> ne;
            for (auto& fc : raw)
                if (fc.k == FK_NE) ne.push_back(fc);
            for (auto& fc : ne) {
                bool ge = proveGE(*this, fc.p, false, 5), le = proveGE(*this, pNeg(fc.p), false, 5);
                if (ge && le) {
                    bad = true;
                    return false;
                }
                int x2, y2;
                LD c2, a2;
                if (fc.p->isInt && (ge || le) && asDiff(fc.p, x2, y2, c2, a2)) {
                    P q2 = pAddC(ge ? fc.p : pNeg(fc.p), -1);
                    if (!proveGE(*this, q2, false, 5)) {
                        if (!add(q2, FK_GE)) return false;
                    }
                }
            }
        }
        if (k != FK_EQ) return true;
    }
    if (k == FK_EQ) {
        // orient as substitution
        int bestSym = -1;
        Q bc = 0;
        for (auto& t : p->t) {
            const MonoV& m = MT.v[t.first];
            if (m.size() != 1 || m[0].second != 1) continue;
            u32 s = m[0].first;
            int cnt = 0;
            bool nested = false;
            for (auto& t2 : p->t)
                for (auto& se : MT.v[t2.first]) {
                    if (se.first == s) cnt++;
                    else if (SY[se.first].kind == S_FUN) {
                        std::set<u32> bs;
                        if (SY[se.first].a) pBaseSyms(SY[se.first].a, bs);
                        if (SY[se.first].b) pBaseSyms(SY[se.first].b, bs);
                        if (bs.count(s)) nested = true;
                    }
                }
            if (cnt != 1 || nested) continue;
            if (SY[s].isInt && !(p->isInt && (t.second == 1 || t.second == -1))) continue;
            if (bestSym < 0 || s > (u32)bestSym) bestSym = s, bc = t.second;
        }
        if (bestSym >= 0) {
            u32 mono = MT.intern({{(u32)bestSym, 1}});
            P rest = pSub(p, mkPoly({{mono, bc}}));
            P rhs = pScale(rest, (Q)-1 / bc);
            Iv rg = range(bestSym);
            for (auto& s : subst) s.second = pSubst(s.second, bestSym, rhs);
            subst.push_back({(u32)bestSym, rhs});
            // keep the range of the eliminated symbol as facts on the rhs
            if (!rhs->isConst()) {
                if (rg.lo > -INF && !proveGE(*this, pAddC(rhs, -(Q)rg.lo), false, 4)) raw.push_back({pAddC(rhs, -(Q)rg.lo), FK_GE});
                if (rg.hi < INF && !proveGE(*this, pSub(pConst((Q)rg.hi), rhs), false, 4)) raw.push_back({pSub(pConst((Q)rg.hi), rhs), FK_GE});
            } else if ((LD)rhs->cst() < rg.lo || (LD)rhs->cst() > rg.hi) {
                bad = true;
                return false;
            }
            for (auto& fc : raw) fc.p = pSubst(fc.p, bestSym, rhs);
            std::vector<Fact> old;
            old.swap(raw);
            for (auto& fc : old) {
                if (fc.p->isConst()) {
                    Q cc = fc.p->cst();
                    bool ok = fc.k == FK_GE ? cc >= 0 : fc.k == FK_GT ? cc > 0 : fc.k == FK_EQ ? cc == 0 : cc != 0;
                    if (!ok) {
                        bad = true;
                        return false;
                    }
                } else if (!add(fc.p, fc.k))
                    return false;
            }
            return true;
        }
        raw.push_back({p, k});
        return true;
    }
    // GE / GT raw
    Iv r = eval(p);
    if (k == FK_GE ? r.hi < 0 : r.hi <= 0) {
        bad = true;
        return false;
    }
    for (auto& fc : raw)
        if (fc.p == p && fc.k == k) return true;
    raw.push_back({p, k});
    return true;
}

// ------------------------------------------------------------------ B&B
struct AD {
    Iv v;
    std::vector<Iv> g;
    bool diff;
};
struct Box {
    std::vector<u32> vars;
    std::vector<Iv> r;
};
struct BoxEval {
    const Box& bx;
    const Facts& f;
    std::map<u32, AD> memo;
    BoxEval(const Box& b, const Facts& F) : bx(b), f(F) {}
    AD sym(u32 s) {
        auto it = memo.find(s);
        if (it != memo.end()) return it->second;
        AD r;
        r.diff = true;
        size_t n = bx.vars.size();
        r.g.assign(n, Iv{0, 0});
        bool found = false;
        for (size_t i = 0; i < n; i++)
            if (bx.vars[i] == s) {
                r.v = bx.r[i];
                r.g[i] = {1, 1};
                found = true;
            }
        if (!found) {
            const Sym& S = SY[s];
            if (S.kind == S_FUN && S.a) {
                AD a = poly(S.a);
                AD b;
                if (S.b) b = poly(S.b);
                r.v = isect(funIv(S, a.v, S.b ? b.v : Iv{0, 0}), {S.lo, S.hi});
                if (r.v.lo > r.v.hi) r.v = {S.lo, S.hi};
                Iv dg{0, 0};
                r.diff = a.diff;
                switch (S.fn) {
                    case F_SIN: dg = funIv(SY[mkFun(F_COS, S.a, nullptr, false)], a.v, {0, 0}); break;
                    case F_COS: {
                        Iv q = funIv(SY[mkFun(F_SIN, S.a, nullptr, false)], a.v, {0, 0});
                        dg = {-q.hi, -q.lo};
                        break;
                    }
                    case F_EXP: dg = r.v; break;
                    case F_INV: {
                        Iv q = ivPow(r.v, 2);
                        dg = {-q.hi, -q.lo};
                        break;
                    }
                    case F_SQRT:
                        if (r.v.lo > 0) dg = {0.5L / r.v.hi, 0.5L / r.v.lo};
                        else r.diff = false;
                        break;
                    case F_ATAN: {
                        Iv q = ivAdd(ivPow(a.v, 2), {1, 1});
                        dg = {1 / q.hi, 1 / q.lo};
                        break;
                    }
                    default: r.diff = false;
                }
                if (r.diff)
                    for (size_t i = 0; i < n; i++) r.g[i] = ivMul(dg, a.g[i]);
            } else {
                r.v = f.range(s);
                r.diff = r.v.lo == r.v.hi;
            }
        }
        return memo[s] = r;
    }
    AD poly(P p) {
        size_t n = bx.vars.size();
        AD r;
        r.v = {0, 0};
        r.diff = true;
        r.g.assign(n, Iv{0, 0});
        for (auto& t : p->t) {
            const MonoV& m = MT.v[t.first];
            Iv v{1, 1};
            std::vector<AD> ads;
            for (auto& se : m) {
                AD a = sym(se.first);
                ads.push_back(a);
                v = ivMul(v, ivPow(a.v, se.second));
            }
            r.v = ivAdd(r.v, ivScale(v, (LD)t.second));
            for (size_t k = 0; k < m.size(); k++) {
                if (!ads[k].diff) {
                    r.diff = false;
                    continue;
                }
                Iv d{(LD)m[k].second, (LD)m[k].second};
                if (m[k].second > 1) d = ivMul(d, ivPow(ads[k].v, m[k].second - 1));
                for (size_t q = 0; q < m.size(); q++)
                    if (q != k) d = ivMul(d, ivPow(ads[q].v, m[q].second));
                d = ivScale(d, (LD)t.second);
                for (size_t i = 0; i < n; i++) r.g[i] = ivAdd(r.g[i], ivMul(d, ads[k].g[i]));
            }
        }
        return r;
    }
};
time_t bnbDeadline = 0;
bool bnbProve(const Facts& f, P p, LD tol, int maxBoxes) {
    p = f.norm(p);
    if (f.eval(p).lo >= -tol) return true;
    std::set<u32> base;
    pBaseSyms(p, base);
    Box b0;
    for (u32 s : base) {
        b0.vars.push_back(s);
        Iv r = f.range(s);
        if (!(r.lo > -1e30L && r.hi < 1e30L)) return false;
        b0.r.push_back(r);
    }
    if (b0.vars.size() > 8) return false;
    // facts over the same variables prune boxes
    std::vector<Fact> fs;
    for (auto& fc : f.raw) {
        if (fc.k == FK_NE) continue;
        std::set<u32> bs;
        pBaseSyms(fc.p, bs);
        bool sub = false;
        for (u32 s : bs)
            if (base.count(s)) sub = true;
        if (sub) fs.push_back(fc);
    }
    if (f.dbm && f.dbm->n <= 40) {
        std::vector<char> rel(f.dbm->n, 0);
        for (u32 i = 1; i < f.dbm->n; i++) {
            u32 s = f.dbm->syms[i];
            if (base.count(s)) rel[i] = 1;
            else if (SY[s].kind == S_FUN) {
                std::set<u32> bs;
                if (SY[s].a) pBaseSyms(SY[s].a, bs);
                if (SY[s].b) pBaseSyms(SY[s].b, bs);
                for (u32 t : bs)
                    if (base.count(t)) rel[i] = 2;
            }
        }
        for (u32 i = 0; i < f.dbm->n; i++)
            for (u32 j = 0; j < f.dbm->n; j++) {
                if (i == j || (!rel[i] && !rel[j])) continue;
                if ((i == 0 || j == 0) && rel[i] != 2 && rel[j] != 2) continue;  // plain ranges are in the box
                Bound bd = f.dbm->at(i, j);
                if (!(bd.c < INF)) continue;
                P lhs = pConst((Q)bd.c);
                if (j) lhs = pAdd(lhs, pSym(f.dbm->syms[j]));
                if (i) lhs = pSub(lhs, pSym(f.dbm->syms[i]));
                fs.push_back({lhs, FK_GE});
            }
    }
    std::vector<Box> stack{b0};
    int cnt = 0;
    while (!stack.empty()) {
        if (++cnt > maxBoxes || (bnbDeadline && (cnt & 255) == 0 && time(nullptr) > bnbDeadline)) return false;
        Box b = std::move(stack.back());
        stack.pop_back();
        BoxEval ev(b, f);
        bool prune = false;
        for (auto& fc : fs) {
            AD a = ev.poly(fc.p);
            if (a.v.hi < 0 || (fc.k == FK_EQ && a.v.lo > 0)) {
                prune = true;
                break;
            }
        }
        if (prune) continue;
        AD a = ev.poly(p);
        LD lo = a.v.lo;
        size_t n = b.vars.size();
        if (lo < -tol && a.diff) {
            Box m = b;
            for (size_t i = 0; i < n; i++) {
                LD c = (b.r[i].lo + b.r[i].hi) / 2;
                m.r[i] = {c, c};
            }
            BoxEval em(m, f);
            Iv mv = em.poly(p).v;
            for (size_t i = 0; i < n; i++) {
                LD w = (b.r[i].hi - b.r[i].lo) / 2;
                mv = ivAdd(mv, ivMul(a.g[i], {-w, w}));
            }
            if (mv.lo > lo) lo = mv.lo;
            // monotone: evaluate at the corner minimising
            if (lo < -tol) {
                bool mono = true;
                Box cbox = b;
                for (size_t i = 0; i < n; i++) {
                    if (a.g[i].lo >= 0) cbox.r[i] = {b.r[i].lo, b.r[i].lo};
                    else if (a.g[i].hi <= 0) cbox.r[i] = {b.r[i].hi, b.r[i].hi};
                    else mono = false;
                }
                BoxEval ec(cbox, f);
                LD l3 = ec.poly(p).v.lo;
                (void)mono;
                if (l3 > lo) lo = l3;
            }
        }
        if (lo >= -tol) continue;
        // split
        int best = -1;
        LD bw = 0;
        for (size_t i = 0; i < n; i++) {
            LD w = b.r[i].hi - b.r[i].lo;
            if (w <= 0) continue;
            if (SY[b.vars[i]].isInt && w < 1) continue;
            LD sc = a.diff ? w * std::max(fabsl(a.g[i].lo), fabsl(a.g[i].hi)) : w;
            if (!(sc < INF)) sc = w * 1e30L;
            if (best < 0 || sc > bw) best = i, bw = sc;
        }
        if (best < 0) return false;
        LD w = b.r[best].hi - b.r[best].lo;
        if (w < 1e-12L) return false;
        Box l = b, r = b;
        LD mid = (b.r[best].lo + b.r[best].hi) / 2;
        if (SY[b.vars[best]].isInt) {
            mid = floorl(mid);
            l.r[best].hi = mid;
            r.r[best].lo = mid + 1;
        } else {
            l.r[best].hi = mid;
            r.r[best].lo = mid;
        }
        stack.push_back(l);
        stack.push_back(r);
    }
    return true;
}

// ------------------------------------------------------------------ witness
static bool evalSym(u32 s, Assign& a, const std::map<u32, bool>& bits, LD& out) {
    auto it = a.find(s);
    if (it != a.end()) {
        out = it->second;
        return true;
    }
    const Sym& S = SY[s];
    if (S.kind == S_BITS) {
        LD v = 0;
        for (size_t i = 0; i < S.bv->b.size(); i++) {
            u32 l = S.bv->b[i];
            bool bv;
            if (l == 0) bv = false;
            else if (l == 1) bv = true;
            else if (l < 4) return false;
            else {
                auto q = bits.find(l >> 1);
                bv = (q != bits.end() ? q->second : false) ^ (l & 1);
            }
            if (bv) v += ldexpl(1, i);
        }
        out = v;
        a[s] = v;
        return true;
    }
    if (S.kind != S_FUN || S.fn == F_OPAQUE || S.fn == F_FBITS) return false;
    LD x = 0, y = 0;
    if (S.a && !evalAt(S.a, a, bits, x)) return false;
    if (S.b && !evalAt(S.b, a, bits, y)) return false;
    switch (S.fn) {
        case F_SIN: out = sinl(x); break;
        case F_COS: out = cosl(x); break;
        case F_TAN: out = tanl(x); break;
        case F_SQRT:
            if (x < 0) return false;
            out = sqrtl(x);
            break;
        case F_INV:
            if (x == 0) return false;
            out = 1 / x;
            break;
        case F_EXP: out = expl(x); break;
        case F_LOG: out = logl(x); break;
        case F_FLOOR: out = floorl(x); break;
        case F_ATAN: out = atanl(x); break;
        case F_ATAN2: out = atan2l(x, y); break;
        case F_IDIV:
            if (y == 0) return false;
            out = truncl(x / y);
            break;
        default: return false;
    }
    a[s] = out;
    return true;
}
bool evalAt(P p, Assign& a, const std::map<u32, bool>& bits, LD& out) {
    LD r = 0;
    for (auto& t : p->t) {
        LD m = (LD)t.second;
        for (auto& se : MT.v[t.first]) {
            LD v;
            if (!evalSym(se.first, a, bits, v)) return false;
            for (u32 k = 0; k < se.second; k++) m *= v;
        }
        r += m;
    }
    out = r;
    return true;
}
bool findWitness(const Facts& f, Assign& out, std::map<u32, bool>& obits, int tries,
                 const std::function<bool(Assign&, std::map<u32, bool>&)>& target) {
    // base symbols
    std::set<u32> base, bitsyms;
    for (auto& fc : f.raw) pBaseSyms(fc.p, base);
    for (auto& s : f.subst) base.insert(s.first), pBaseSyms(s.second, base);
    if (f.dbm)
        for (u32 i = 1; i < f.dbm->n; i++) pBaseSyms(pSym(f.dbm->syms[i]), base);
    for (u32 s = 0; s < SY.size(); s++)
        if (SY[s].kind == S_INPUT) base.insert(s);
    std::set<u32> sub;
    for (auto& s : f.subst) sub.insert(s.first);
    std::vector<u32> order;
    for (u32 s : base)
        if (SY[s].kind == S_INPUT && !sub.count(s)) order.push_back(s);
    std::set<u32> bv;
    for (u32 s : base)
        if (SY[s].kind == S_BITS)
            for (u32 l : SY[s].bv->b)
                if (l >= 4) bv.insert(l >> 1);
    {
        std::set<u32> ex;
        for (u32 v : bv) xorBases(v, ex);
        if (f.bits)
            for (auto& b : *f.bits) xorBases(b.first, ex);
        for (u32 v : ex) bv.insert(v);
    }
    for (int t = 0; t < tries; t++) {
        Assign a;
        std::map<u32, bool> bits;
        if (f.bits) bits = *f.bits;
        for (u32 v : bv)
            if (!bits.count(v)) bits[v] = t == 0 ? false : t == 1 ? true : (rnd() & 1);
        if (f.bits && !xorComplete(*f.bits, bits)) continue;
        int mode = t % 6;
        std::vector<std::pair<int, LD>> done;  // dbm idx assigned
        bool ok = true;
        for (u32 s : order) {
            Iv r{SY[s].lo, SY[s].hi};
            int i = f.dbm ? f.dbm->find(s) : -1;
            bool slo = false, shi = false;
            if (i >= 0) {
                Bound h = f.dbm->at(i, 0), l = f.dbm->at(0, i);
                if (h.c < r.hi) r.hi = h.c, shi = h.s;
                if (-l.c > r.lo) r.lo = -l.c, slo = l.s;
                for (auto& dn : done) {
                    Bound u = f.dbm->at(i, dn.first), w = f.dbm->at(dn.first, i);
                    if (dn.second + u.c < r.hi || (dn.second + u.c == r.hi && u.s)) r.hi = dn.second + u.c, shi = u.s;
                    if (dn.second - w.c > r.lo || (dn.second - w.c == r.lo && w.s)) r.lo = dn.second - w.c, slo = w.s;
                }
            }
            LD lo = r.lo, hi = r.hi;
            if (lo == -INF) lo = (hi < INF ? hi : 0) - 1000;
            if (hi == INF) hi = (lo > -INF ? lo : 0) + 1000;
            if (lo > hi + 1e-12L) {
                ok = false;
                break;
            }
            LD v;
            if (SY[s].isInt) {
                LD w = hi - lo + 1;
                if (mode == 0) v = lo;
                else if (mode == 1) v = hi;
                else if (mode == 2) v = lo + floorl(rnd01() * w);
                else if (mode == 3) v = lo + floorl(rnd01() * std::min(w, (LD)4));
                else if (mode == 4) {
                    v = floorl(rnd01() * 9) - 4;
                    if (v < lo || v > hi) v = lo + floorl(rnd01() * std::min(w, (LD)9));
                } else
                    v = hi - floorl(rnd01() * std::min(w, (LD)4));
                if (v < lo) v = lo;
                if (v > hi) v = hi;
            } else {
                LD u = mode == 0 ? 0 : mode == 1 ? 1 : rnd01();
                if (mode == 2 && (rnd() & 3) == 0) u = (rnd() & 1) ? 0 : 1;
                if (mode == 3) u = u * 0.001L;
                if (mode == 5) u = 1 - u * 0.001L;
                if (slo && u < 1e-6L) u = 1e-3L;
                if (shi && u > 1 - 1e-6L) u = 1 - 1e-3L;
                v = lo + u * (hi - lo);
            }
            a[s] = v;
            if (i >= 0) done.push_back({i, v});
        }
        if (!ok) continue;
        for (auto it = f.subst.rbegin(); it != f.subst.rend() && ok; ++it) {
            LD v;
            if (!evalAt(it->second, a, bits, v)) {
                ok = false;
                break;
            }
            if (SY[it->first].isInt && fabsl(v - roundl(v)) > 1e-9L) ok = false;
            if (v < SY[it->first].lo - 1e-12L || v > SY[it->first].hi + 1e-12L) ok = false;
            a[it->first] = v;
        }
        if (!ok) continue;
        for (auto& fc : f.raw) {
            LD v;
            if (!evalAt(fc.p, a, bits, v)) {
                ok = false;
                break;
            }
            LD eps = fc.p->isInt ? 0 : 1e-11L;
            bool h = fc.k == FK_GE ? v >= (fc.p->isInt ? 0 : -eps * 0) : fc.k == FK_GT ? v > eps : fc.k == FK_EQ ? fabsl(v) <= eps : fabsl(v) > eps;
            if (fc.p->isInt && fc.k == FK_EQ) h = v == 0;
            if (!h) {
                ok = false;
                break;
            }
        }
        if (!ok) continue;
        // zone facts on derived symbols
        if (f.dbm) {
            std::vector<LD> val(f.dbm->n, 0);
            std::vector<char> known(f.dbm->n, 0);
            known[0] = 1;
            for (u32 i = 1; i < f.dbm->n && ok; i++) {
                LD v;
                if (evalSym(f.dbm->syms[i], a, bits, v)) val[i] = v, known[i] = 1;
                else ok = false;
            }
            for (u32 i = 0; i < f.dbm->n && ok; i++)
                for (u32 j = 0; j < f.dbm->n && ok; j++) {
                    Bound b = f.dbm->at(i, j);
                    if (b.c == INF || i == j) continue;
                    LD d = val[i] - val[j];
                    if (d > b.c + 1e-12L || (b.s && d >= b.c)) ok = false;
                }
        }
        if (!ok) continue;
        if (!target(a, bits)) continue;
        out = a;
        obits = bits;
        return true;
    }
    return false;
}
