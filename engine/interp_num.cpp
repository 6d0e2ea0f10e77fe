#include "interp.h"
#include <quadmath.h>
using namespace llvm;

static LD p2(int w) { return ldexpl(1, w); }
bool Engine::forceTop(State& s) {
    if (s.forcedSet) {
        s.forcedSet = false;
        return s.forced != 0;
    }
    if (trace) fprintf(stderr, "  forceTop\n");
    ForkReq r;
    for (int i = 0; i < 2; i++) {
        Alt a;
        a.k = A_FORCE;
        a.v = i;
        a.taint = true;
        r.alts.push_back(a);
    }
    throw r;
}
bool Engine::decGE(State& s, P p, bool strict) {
    Tri t = decideGE(s.f, p, strict);
    if (t != UNK) return t == YES;
    ForkReq r;
    Alt a, b;
    a.k = strict ? A_GT : A_GE;
    a.p = p;
    b.k = strict ? A_GE : A_GT;
    b.p = pNeg(p);
    r.alts = {a, b};
    throw r;
}
bool Engine::decEQ(State& s, P p) {
    Tri t = decideEQ(s.f, p);
    if (t != UNK) return t == YES;
    ForkReq r;
    Alt a, b;
    a.k = A_EQ;
    a.p = p;
    b.k = A_NE;
    b.p = p;
    r.alts = {a, b};
    throw r;
}
AV Engine::simp(State& s, AV v) {
    if (v.k == K_PACK) return mkTop(v.w);
    if (v.k == K_IB) {
        if (!s.f.bits) return v;
        bool ch = false;
        std::vector<u32> b = v.bv->b;
        for (auto& l : b) {
            if (l < 4) continue;
            int x = s.f.bit(l);
            if (x >= 0) l = x, ch = true;
        }
        return ch ? mkBits(b) : v;
    }
    if (v.k == K_IP && !s.f.subst.empty()) {
        P p = s.f.norm(v.p);
        if (p != v.p) return mkIPoly(p, v.w);
    }
    return v;
}
bool Engine::toBits(State& s, AV v, std::vector<u32>& out) {
    v = simp(s, v);
    out.clear();
    if (v.k == K_IC) {
        for (int i = 0; i < v.w; i++) out.push_back((v.c >> i) & 1);
        return true;
    }
    if (v.k == K_IB) {
        out = v.bv->b;
        return true;
    }
    if (v.k == K_IP) {
        // 2^k * bits + const-disjoint
        if (v.p->t.size() == 1) {
            const MonoV& m = MT.v[v.p->t[0].first];
            Q c = v.p->t[0].second;
            if (m.size() == 1 && m[0].second == 1 && SY[m[0].first].kind == S_BITS && c > 0) {
                int e;
                Q fr = frexpq(c, &e);
                if (fr == 0.5) {
                    out.assign(e - 1, 0);
                    for (u32 l : SY[m[0].first].bv->b) out.push_back(l);
                    out.resize(v.w, 0);
                    for (auto& l : out) {
                        int x = s.f.bit(l);
                        if (x >= 0) l = x;
                    }
                    return true;
                }
            }
        }
        // known low zero bits / small range: high bits known zero
        P p = v.p;
        if (p->isInt && proveGE(s.f, p, false)) {
            Iv r = s.f.eval(p);
            int hb = v.w;
            while (hb > 0 && r.hi < p2(hb - 1)) hb--;
            if (hb < v.w || true) {
                int lz = v.w;
                for (auto& t : p->t) {
                    int k = 0;
                    Q c = fabsq(t.second);
                    while (k < v.w && fmodq(c, 2) == 0) c /= 2, k++;
                    lz = std::min(lz, k);
                }
                if (r.hi < p2(v.w)) {
                    out.assign(v.w, 2);
                    for (int i = 0; i < lz; i++) out[i] = 0;
                    for (int i = hb; i < v.w; i++) out[i] = 0;
                    return true;
                }
            }
        }
        return false;
    }
    if (v.k == K_IT) {
        out.assign(v.w, 2);
        return true;
    }
    return false;
}
bool Engine::toPoly(State& s, AV v, P& out) {
    v = simp(s, v);
    switch (v.k) {
        case K_IC: out = pConst((Q)sx(v.c, v.w)); return true;
        case K_IP: out = v.p; return true;
        case K_IB: {
            // strip trailing zeros so that shifted copies share the symbol
            std::vector<u32> b = v.bv->b;
            for (u32 l : b)
                if (l == 2) return false;
            size_t z = 0;
            while (z < b.size() && b[z] == 0) z++;
            std::vector<u32> c(b.begin() + z, b.end());
            while (!c.empty() && c.back() == 0) c.pop_back();
            out = pScale(pSym(mkBitsSym(internBits(c))), ldexpq(1, z));
            return true;
        }
    }
    return false;
}
P Engine::normRange(State& s, P p, LD lo, LD hi, Q mod) {
    p = s.f.norm(p);
    for (int it = 0; it < 4; it++) {
        if (proveGE(s.f, pAddC(p, -(Q)lo), false)) {
            if (proveGE(s.f, pSub(pConst((Q)hi), p), false)) return p;
            if (decGE(s, pSub(pConst((Q)hi), p), false)) return p;
            p = pSub(p, pConst(mod));
        } else {
            if (decGE(s, pAddC(p, -(Q)lo), false)) continue;
            p = pAddC(p, mod);
        }
    }
    return nullptr;
}
P Engine::normU(State& s, P p, int w) { return normRange(s, p, 0, p2(w) - 1, ldexpq(1, w)); }
P Engine::normS(State& s, P p, int w) { return normRange(s, p, -p2(w - 1), p2(w - 1) - 1, ldexpq(1, w)); }

bool Engine::divRule(State& s, P p, P d, P& q, P& r) {
    p = s.f.norm(p);
    d = s.f.norm(d);
    auto inRange = [&](P x) { return proveGE(s.f, x, false) && proveGE(s.f, pAddC(pSub(d, x), -1), false); };
    if (d->t.size() == 1) {
        Q c = d->t[0].second;
        const MonoV dm = MT.v[d->t[0].first];
        for (int pass = 0; pass < 2; pass++) {
            P qq = pConst(0);
            for (auto& t : p->t) {
                MonoV rest;
                bool div = true;
                const MonoV m = MT.v[t.first];
                size_t found = 0;
                for (auto& se : m) {
                    u32 e = se.second;
                    for (auto& de : dm)
                        if (de.first == se.first) {
                            found++;
                            if (e >= de.second) e -= de.second;
                            else div = false;
                        }
                    if (e) rest.push_back({se.first, e});
                }
                if (found != dm.size()) div = false;
                if (!div) continue;
                Q k = t.second / c;
                if (floorq(k) != k) {
                    if (pass == 0) continue;
                    k = floorq(k);
                }
                if (k == 0) continue;
                qq = pAdd(qq, mkPoly({{MT.intern(rest), k}}));
            }
            P rr = pSub(p, pMul(qq, d));
            for (int adj = 0; adj < 3; adj++) {
                P q2 = adj == 0 ? qq : adj == 1 ? pAddC(qq, -1) : pAddC(qq, 1);
                P r2 = adj == 0 ? rr : adj == 1 ? pAdd(rr, d) : pSub(rr, d);
                if (inRange(r2)) {
                    q = q2;
                    r = r2;
                    return true;
                }
            }
        }
    } else {
        // try small constant quotients
        for (int k = -1; k <= 3; k++) {
            P r2 = pSub(p, pScale(d, k));
            if (inRange(r2)) {
                q = pConst(k);
                r = r2;
                return true;
            }
        }
        // long division by each non-constant term of the divisor
        for (auto& lt : d->t) {
            const MonoV dm = MT.v[lt.first];
            if (dm.empty()) continue;
            P qq = pConst(0), rr = p;
            for (int it = 0; it < 40; it++) {
                bool hit = false;
                for (auto& t : rr->t) {
                    const MonoV m = MT.v[t.first];
                    MonoV rest;
                    size_t found = 0;
                    bool div = true;
                    for (auto& se : m) {
                        u32 e = se.second;
                        for (auto& de : dm)
                            if (de.first == se.first) {
                                found++;
                                if (e >= de.second) e -= de.second;
                                else div = false;
                            }
                        if (e) rest.push_back({se.first, e});
                    }
                    if (!div || found != dm.size()) continue;
                    Q k = t.second / lt.second;
                    if (floorq(k) != k) continue;
                    P step = mkPoly({{MT.intern(rest), k}});
                    qq = pAdd(qq, step);
                    rr = pSub(rr, pMul(step, d));
                    hit = true;
                    break;
                }
                if (!hit) break;
            }
            for (int adj = 0; adj < 3; adj++) {
                P q2 = adj == 0 ? qq : adj == 1 ? pAddC(qq, -1) : pAddC(qq, 1);
                P r2 = adj == 0 ? rr : adj == 1 ? pAdd(rr, d) : pSub(rr, d);
                if (inRange(r2)) {
                    q = q2;
                    r = r2;
                    return true;
                }
            }
        }
        // polynomial multiple: quotient symbol candidates
        std::set<u32> syms;
        pSyms(p, syms);
        for (u32 sy : syms)
            for (int k = -1; k <= 1; k++) {
                P q2 = pAddC(pSym(sy), k);
                P r2 = pSub(p, pMul(q2, d));
                if (inRange(r2)) {
                    q = q2;
                    r = r2;
                    return true;
                }
            }
    }
    // opaque quotient with its defining constraints (p >= 0, d >= 1)
    if (!proveGE(s.f, p, false) || !proveGE(s.f, d, true)) return false;
    u32 qs = mkFun(F_IDIV, p, d, true);
    q = pSym(qs);
    r = pSub(p, pMul(q, d));
    s.f.add(q, FK_GE);
    s.f.add(r, FK_GE);
    s.f.add(pAddC(pSub(d, r), -1), FK_GE);
    return true;
}
i64 Engine::concretize(State& s, AV v, bool sgn, const char* what) {
    v = simp(s, v);
    if (v.k == K_IC) return sgn ? sx(v.c, v.w) : (i64)v.c;
    P p;
    if (v.k == K_IB) {
        for (u32 l : v.bv->b)
            if (l >= 4) {
                ForkReq r;
                for (int i = 0; i < 2; i++) {
                    Alt a;
                    a.k = A_BIT;
                    a.bit = l >> 1;
                    a.v = i;
                    r.alts.push_back(a);
                }
                throw r;
            }
    }
    if (!toPoly(s, v, p)) throw KillPath{std::string("unknown value for ") + what, true};
    p = sgn ? normS(s, p, v.w) : normU(s, p, v.w);
    if (!p) throw KillPath{std::string("unbounded value for ") + what, true};
    if (p->isConst()) return (i64)p->cst();
    // linear in a single symbol: enumerate that symbol
    std::set<u32> syms;
    pSyms(p, syms);
    if (syms.size() >= 1) {
        u32 best = *syms.begin();
        LD bw = INF;
        for (u32 x : syms) {
            Iv r = s.f.range(x);
            if (SY[x].isInt && r.hi - r.lo < bw) best = x, bw = r.hi - r.lo;
        }
        Iv pr = s.f.eval(p);
        if (pr.hi - pr.lo < bw && pr.hi - pr.lo <= 64) {
            ForkReq r;
            pr.lo = ceill(pr.lo);
            while (pr.lo < pr.hi && proveGE(s.f, pAddC(p, -(Q)pr.lo), true)) pr.lo += 1;
            while (pr.lo < floorl(pr.hi) && proveGE(s.f, pAddC(pNeg(p), (Q)floorl(pr.hi)), true)) pr.hi = floorl(pr.hi) - 1;
            for (LD x = ceill(pr.lo); x <= pr.hi; x += 1) {
                Alt a;
                a.k = A_EQ;
                a.p = pAddC(p, -(Q)x);
                r.alts.push_back(a);
            }
            throw r;
        }
        if (bw <= 300) {
            Iv rg = s.f.range(best);
            ForkReq r;
            rg.lo = ceill(rg.lo);
            while (rg.lo < rg.hi && proveGE(s.f, pAddC(pSym(best), -(Q)rg.lo), true)) rg.lo += 1;
            while (rg.lo < floorl(rg.hi) && proveGE(s.f, pAddC(pNeg(pSym(best)), (Q)floorl(rg.hi)), true)) rg.hi = floorl(rg.hi) - 1;
            for (LD x = ceill(rg.lo); x <= rg.hi; x += 1) {
                Alt a;
                a.k = A_EQ;
                a.p = pAddC(pSym(best), -(Q)x);
                r.alts.push_back(a);
            }
            throw r;
        }
    }
    throw KillPath{std::string("value not enumerable for ") + what + ": " + pStr(p), true};
}

AV Engine::binop(State& s, Ins& in, unsigned opc, AV a, AV b, int w) {
    a = simp(s, a);
    b = simp(s, b);
    bool nsw = false;
    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(in.I)) nsw = ob->hasNoSignedWrap();
    if (a.k == K_UNDEF || b.k == K_UNDEF) {
        // setting or clearing some bits of an uninitialised word defines those bits
        if ((opc == Instruction::And || opc == Instruction::Or) && (a.k == K_IC || b.k == K_IC) && w <= 64) {
            u64 m = (a.k == K_IC ? a.c : b.c) & (w == 64 ? ~0ull : (1ull << w) - 1);
            if (opc == Instruction::Or ? m != 0 : (m & (m - 1)) != 0) {
                std::vector<u32> r(w, 2);
                for (int i = 0; i < w; i++)
                    if (((m >> i) & 1) == (opc == Instruction::Or)) r[i] = opc == Instruction::Or;
                return mkBits(r);
            }
        }
        AV u;
        u.k = K_UNDEF;
        u.w = w;
        return u;
    }
    if (a.k == K_IC && b.k == K_IC) {
        u64 x = a.c, y = b.c;
        i64 sx_ = sx(x, w), sy = sx(y, w);
        switch (opc) {
            case Instruction::Add:
                if (nsw) {
                    __int128 t = (__int128)sx_ + sy;
                    if (t != sx((u64)t, w)) {
                        fail(s, &in, "overflow", "signed addition overflows");
                        throw KillPath{"overflow", false};
                    }
                }
                return mkI(x + y, w);
            case Instruction::Sub:
                if (nsw) {
                    __int128 t = (__int128)sx_ - sy;
                    if (t != sx((u64)t, w)) {
                        fail(s, &in, "overflow", "signed subtraction overflows");
                        throw KillPath{"overflow", false};
                    }
                }
                return mkI(x - y, w);
            case Instruction::Mul:
                if (nsw) {
                    __int128 t = (__int128)sx_ * sy;
                    if (t != sx((u64)t, w)) {
                        fail(s, &in, "overflow", "signed multiplication overflows");
                        throw KillPath{"overflow", false};
                    }
                }
                return mkI(x * y, w);
            case Instruction::And: return mkI(x & y, w);
            case Instruction::Or: return mkI(x | y, w);
            case Instruction::Xor: return mkI(x ^ y, w);
            case Instruction::UDiv:
            case Instruction::URem:
                if (!y) {
                    fail(s, &in, "div0", "integer division by zero");
                    throw KillPath{"div0", false};
                }
                ok("div0");
                return mkI(opc == Instruction::UDiv ? x / y : x % y, w);
            case Instruction::SDiv:
            case Instruction::SRem:
                if (!sy) {
                    fail(s, &in, "div0", "integer division by zero");
                    throw KillPath{"div0", false};
                }
                ok("div0");
                if (sy == -1) return opc == Instruction::SDiv ? mkI(0 - x, w) : mkI(0, w);
                return mkI(opc == Instruction::SDiv ? sx_ / sy : sx_ % sy, w);
            case Instruction::Shl:
            case Instruction::LShr:
            case Instruction::AShr:
                if (y >= (u64)w) {
                    fail(s, &in, "shift", "shift amount " + std::to_string((long long)sy) + " out of range for a " + std::to_string(w) + "-bit operand");
                    throw KillPath{"shift", false};
                }
                ok("shift");
                if (opc == Instruction::Shl) return mkI(x << y, w);
                if (opc == Instruction::LShr) return mkI(x >> y, w);
                return mkI((u64)(sx_ >> y), w);
        }
    }
    // pointers held in integers
    if (a.k == K_PTR || b.k == K_PTR) {
        if (a.k == K_PTR && b.k == K_PTR && opc == Instruction::Sub && a.obj == b.obj) return mkI(a.off - b.off, w);
        if (a.k == K_PTR && b.k == K_IC && (opc == Instruction::Add || opc == Instruction::Sub)) {
            AV r = a;
            r.off += opc == Instruction::Add ? sx(b.c, w) : -sx(b.c, w);
            return r;
        }
        if (b.k == K_PTR && a.k == K_IC && opc == Instruction::Add) {
            AV r = b;
            r.off += sx(a.c, w);
            return r;
        }
        if (a.k == K_PTR && b.k == K_IC) {
            if (opc == Instruction::And && b.c < 64) return mkI(a.off & b.c, w);
            if (opc == Instruction::And && ~b.c < 64) {
                AV r = a;
                r.off &= (i64)b.c;
                return r;
            }
            if ((opc == Instruction::URem || opc == Instruction::SRem) && b.c <= 64 && (b.c & (b.c - 1)) == 0) return mkI(a.off & (b.c - 1), w);
        }
        if (a.k == K_PTR && a.obj == 0 && b.k == K_PTR && b.obj == 0) {
            return binop(s, in, opc, mkI(a.off, w), mkI(b.off, w), w);
        }
        return mkTop(w);
    }
    if ((a.k == K_PTRP || b.k == K_PTRP) && opc == Instruction::Sub && a.obj == b.obj) {
        P x = a.k == K_PTRP ? a.p : pConst(a.off), y = b.k == K_PTRP ? b.p : pConst(b.off);
        return mkIPoly(pSub(x, y), w);
    }
    // shifts: concrete amount
    if (opc == Instruction::Shl || opc == Instruction::LShr || opc == Instruction::AShr) {
        i64 k = concretize(s, b, false, "shift amount");
        if (k < 0 || k >= w) {
            fail(s, &in, "shift", "shift amount " + std::to_string(k) + " out of range for a " + std::to_string(w) + "-bit operand");
            throw KillPath{"shift", false};
        }
        ok("shift");
        std::vector<u32> x;
        if (a.k == K_IB || a.k == K_IC || a.k == K_IT) {
            toBits(s, a, x);
            std::vector<u32> r(w, 0);
            for (int i = 0; i < w; i++) {
                if (opc == Instruction::Shl) r[i] = i >= k ? x[i - k] : 0;
                else if (opc == Instruction::LShr) r[i] = i + k < w ? x[i + k] : 0;
                else r[i] = i + k < w ? x[i + k] : x[w - 1];
            }
            return mkBits(r);
        }
        P p;
        if (toPoly(s, a, p)) {
            if (opc == Instruction::Shl) return mkIPoly(pScale(p, ldexpq(1, k)), w);
            p = opc == Instruction::LShr ? normU(s, p, w) : normS(s, p, w);
            P q, r;
            if (p && divRule(s, p, pConst(ldexpq(1, k)), q, r)) return mkIPoly(q, w);
        }
        return mkTop(w);
    }
    if (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor) {
        // identities on polynomials
        for (int sw = 0; sw < 2; sw++) {
            AV c = sw ? a : b, v = sw ? b : a;
            if (c.k != K_IC) continue;
            u64 m = maskw(w);
            if (opc == Instruction::And) {
                if (c.c == 0) return mkI(0, w);
                if (c.c == m) return v;
                if (v.k == K_IP && ((c.c + 1) & c.c) == 0) {
                    P p = v.p, q, r;
                    // value mod 2^k is independent of wrap-around
                    if (divRule(s, p, pConst((Q)(c.c + 1)), q, r)) return mkIPoly(r, w);
                    P pu = normU(s, p, w);
                    if (pu && divRule(s, pu, pConst((Q)(c.c + 1)), q, r)) return mkIPoly(r, w);
                }
            } else if (opc == Instruction::Or) {
                if (c.c == 0) return v;
                if (c.c == m) return mkI(m, w);
            } else {
                if (c.c == 0) return v;
                if (c.c == m && v.k == K_IP) return mkIPoly(pSub(pConst(-1), v.p), w);
            }
        }
        if (a.k == K_IP && b.k == K_IP && a.p == b.p) return opc == Instruction::Xor ? mkI(0, w) : a;
        std::vector<u32> x, y;
        if (toBits(s, a, x) && toBits(s, b, y)) {
            std::vector<u32> r(w, 0);
            for (int i = 0; i < w; i++) {
                u32 p = x[i], q = y[i];
                if (p > q) std::swap(p, q);
                if (opc == Instruction::And) {
                    if (p == 0) r[i] = 0;
                    else if (p == 1) r[i] = q;
                    else if (p == 2) r[i] = 2;
                    else if (p == q) r[i] = p;
                    else if ((p ^ q) == 1) r[i] = 0;
                    else r[i] = 2;
                } else if (opc == Instruction::Or) {
                    if (p == 0) r[i] = q;
                    else if (p == 1) r[i] = 1;
                    else if (q == 1) r[i] = 1;
                    else if (p == 2) r[i] = 2;
                    else if (p == q) r[i] = p;
                    else if ((p ^ q) == 1) r[i] = 1;
                    else r[i] = 2;
                } else {
                    r[i] = xorLit(p, q);
                }
            }
            return mkBits(r);
        }
        return mkTop(w);
    }
    // negation of a bit pattern: the digits above the lowest set one are flipped
    if (opc == Instruction::Sub && a.k == K_IC && a.c == 0 && b.k == K_IB) {
        std::vector<u32> x;
        toBits(s, b, x);
        for (int i = 0; i < w; i++) {
            u32 l = x[i];
            if (l >= 4) {
                int v = s.f.bit(l);
                if (v < 0) {
                    ForkReq r;
                    for (int q = 0; q < 2; q++) {
                        Alt al;
                        al.k = A_BIT;
                        al.bit = l >> 1;
                        al.v = q;
                        r.alts.push_back(al);
                    }
                    throw r;
                }
                l = v;
            }
            if (l == 2) break;
            x[i] = l;
            if (l == 1) {
                for (int j = i + 1; j < w; j++) x[j] = x[j] < 2 ? 1 - x[j] : x[j] == 2 ? 2 : x[j] ^ 1;
                return mkBits(x);
            }
            if (i == w - 1) return mkI(0, w);
        }
    }
    // multiplication of a bit pattern by a power of two
    if (opc == Instruction::Mul && ((a.k == K_IB && b.k == K_IC) || (a.k == K_IC && b.k == K_IB))) {
        u64 c = a.k == K_IC ? a.c : b.c;
        if (c && !(c & (c - 1)) && c < (1ull << (w - 1))) {
            int k = __builtin_ctzll(c);
            std::vector<u32> x, r(w, 0);
            toBits(s, a.k == K_IB ? a : b, x);
            bool fits = true;
            for (int i = w - 1 - k; i < w; i++)
                if (x[i] != x[w - 1] || x[i] == 2) fits = false;
            if (fits || !nsw) {
                if (nsw) ok("overflow");
                for (int i = k; i < w; i++) r[i] = x[i - k];
                return mkBits(r);
            }
        }
    }
    // add/sub/mul/div
    if ((opc == Instruction::Add || opc == Instruction::Sub) && a.k != K_IP && b.k != K_IP && a.k != K_IT && b.k != K_IT) {
        std::vector<u32> x, y;
        if (toBits(s, a, x) && toBits(s, b, y)) {
            auto xor2 = [](u32 p, u32 q) -> u32 { return xorLit(p, q); };
            auto maj = [](u32 p, u32 q, u32 r) -> u32 {
                if (p == q && p != 2) return p;
                if (p == r && p != 2) return p;
                if (q == r && q != 2) return q;
                if (p != 2 && q != 2 && (p ^ q) == 1) return r;
                if (p != 2 && r != 2 && (p ^ r) == 1) return q;
                if (r != 2 && q != 2 && (r ^ q) == 1) return p;
                return 2;
            };
            u32 carry = opc == Instruction::Sub ? 1 : 0;
            std::vector<u32> r(w);
            bool top = false;
            for (int i = 0; i < w; i++) {
                u32 q = y[i];
                if (opc == Instruction::Sub) q = q < 2 ? 1 - q : q == 2 ? 2 : q ^ 1;
                r[i] = xor2(xor2(x[i], q), carry);
                carry = maj(x[i], q, carry);
                if (r[i] == 2) top = true;
            }
            if (!top) return mkBits(r);
            P pa, pb;
            if (!toPoly(s, a, pa) || !toPoly(s, b, pb)) return mkBits(r);
        }
    }
    P pa, pb;
    if (!toPoly(s, a, pa) || !toPoly(s, b, pb)) return mkTop(w);
    if (opc == Instruction::Add || opc == Instruction::Sub || opc == Instruction::Mul) {
        if (nsw) {  // operands are read as signed values
            if (a.k == K_IB) pa = normS(s, pa, w);
            if (b.k == K_IB) pb = normS(s, pb, w);
            if (!pa || !pb) return mkTop(w);
        }
        P r = opc == Instruction::Add ? pAdd(pa, pb) : opc == Instruction::Sub ? pSub(pa, pb) : pMul(pa, pb);
        if (nsw) {
            LD lo = -p2(w - 1), hi = p2(w - 1) - 1;
            Iv iv = s.f.eval(r);
            if (iv.lo >= lo && iv.hi <= hi) ok("overflow");
            else if (proveGE(s.f, pAddC(r, -(Q)lo), false) && proveGE(s.f, pSub(pConst((Q)hi), r), false)) ok("overflow");
            else if (proveGE(s.f, pAddC(pNeg(r), (Q)lo), true) || proveGE(s.f, pAddC(r, -(Q)hi), true)) {
                fail(s, &in, "overflow", "signed arithmetic overflows");
                throw KillPath{"overflow", false};
            } else
                undecided["overflow@" + locStr(s, &in)]++;
        }
        if (trace) fprintf(stderr, "  = %s\n", pStr(r).c_str());
        return mkIPoly(r, w);
    }
    bool sg = opc == Instruction::SDiv || opc == Instruction::SRem;
    pa = sg ? normS(s, pa, w) : normU(s, pa, w);
    pb = sg ? normS(s, pb, w) : normU(s, pb, w);
    if (!pa || !pb) return mkTop(w);
    if (decEQ(s, pb)) {
        fail(s, &in, "div0", "integer division by zero");
        throw KillPath{"div0", false};
    }
    ok("div0");
    bool na = false, nb = false;
    if (sg) {
        if (!decGE(s, pb, false)) nb = true, pb = pNeg(pb);
        // try direct rule first, otherwise split on the sign of the dividend
        if (!decGE(s, pa, false)) na = true, pa = pNeg(pa);
    }
    P q, r;
    if (!divRule(s, pa, pb, q, r)) return mkTop(w);
    if (trace) fprintf(stderr, "  div %s by %s = %s rem %s\n", pStr(pa).c_str(), pStr(pb).c_str(), pStr(q).c_str(), pStr(r).c_str());
    if (opc == Instruction::SDiv || opc == Instruction::UDiv) return mkIPoly(na != nb ? pNeg(q) : q, w);
    return mkIPoly(na ? pNeg(r) : r, w);
}
int Engine::cmpBits(State& s, const std::vector<u32>& a, const std::vector<u32>& b) {
    for (int i = (int)a.size() - 1; i >= 0; i--) {
        u32 x = a[i], y = b[i];
        if (x == y && x != 2) continue;
        if (x < 2 && y < 2) return x < y ? -1 : 1;
        if (x != 2 && y != 2) {
            u32 dl = xorLit(x, y);  // do the two bits differ?
            int v = dl < 2 ? (int)dl : s.f.bit(dl);
            if (v == 0) continue;
            u32 l = dl;
            if (v == 1) {
                int xv = s.f.bit(x), yv = s.f.bit(y);
                if (xv >= 0) return xv ? 1 : -1;
                if (yv >= 0) return yv ? -1 : 1;
                l = x >= 4 ? x : y;
            }
            ForkReq r;
            for (int q = 0; q < 2; q++) {
                Alt al;
                al.k = A_BIT;
                al.bit = l >> 1;
                al.v = q;
                r.alts.push_back(al);
            }
            throw r;
        }
        return 2;
    }
    return 0;
}
bool Engine::icmp(State& s, CmpInst::Predicate pr, AV a, AV b) {
    a = simp(s, a);
    b = simp(s, b);
    typedef CmpInst C;
    // pointers
    if (a.k == K_PTR || a.k == K_PTRP || a.k == K_FN || b.k == K_PTR || b.k == K_PTRP || b.k == K_FN) {
        if (a.k == K_FN || b.k == K_FN) {
            bool eq = a.k == b.k && a.fn == b.fn;
            if (pr == C::ICMP_EQ) return eq;
            if (pr == C::ICMP_NE) return !eq;
            return forceTop(s);
        }
        if (a.k == K_IC) a = mkPtr(0, a.c);
        if (b.k == K_IC) b = mkPtr(0, b.c);
        bool pa = a.k == K_PTR || a.k == K_PTRP, pb = b.k == K_PTR || b.k == K_PTRP;
        if (!pa || !pb) return forceTop(s);
        if (a.obj != b.obj) {
            switch (pr) {
                case C::ICMP_EQ: return false;
                case C::ICMP_NE: return true;
                case C::ICMP_ULT:
                case C::ICMP_ULE: return a.obj < b.obj;
                default: return a.obj > b.obj;
            }
        }
        if (a.k == K_PTR && b.k == K_PTR) {
            switch (pr) {
                case C::ICMP_EQ: return a.off == b.off;
                case C::ICMP_NE: return a.off != b.off;
                case C::ICMP_ULT:
                case C::ICMP_SLT: return a.off < b.off;
                case C::ICMP_ULE:
                case C::ICMP_SLE: return a.off <= b.off;
                case C::ICMP_UGT:
                case C::ICMP_SGT: return a.off > b.off;
                default: return a.off >= b.off;
            }
        }
        P x = a.k == K_PTRP ? a.p : pConst(a.off), y = b.k == K_PTRP ? b.p : pConst(b.off);
        P d = pSub(x, y);
        switch (pr) {
            case C::ICMP_EQ: return decEQ(s, d);
            case C::ICMP_NE: return !decEQ(s, d);
            case C::ICMP_ULT:
            case C::ICMP_SLT: return decGE(s, pNeg(d), true);
            case C::ICMP_ULE:
            case C::ICMP_SLE: return decGE(s, pNeg(d), false);
            case C::ICMP_UGT:
            case C::ICMP_SGT: return decGE(s, d, true);
            default: return decGE(s, d, false);
        }
    }
    if (a.k == K_IC && b.k == K_IC) {
        i64 x = sx(a.c, a.w), y = sx(b.c, b.w);
        switch (pr) {
            case C::ICMP_EQ: return a.c == b.c;
            case C::ICMP_NE: return a.c != b.c;
            case C::ICMP_ULT: return a.c < b.c;
            case C::ICMP_ULE: return a.c <= b.c;
            case C::ICMP_UGT: return a.c > b.c;
            case C::ICMP_UGE: return a.c >= b.c;
            case C::ICMP_SLT: return x < y;
            case C::ICMP_SLE: return x <= y;
            case C::ICMP_SGT: return x > y;
            default: return x >= y;
        }
    }
    int w = a.w;
    bool anyP = a.k == K_IP || b.k == K_IP;
    if (!anyP || a.k == K_IT || b.k == K_IT) {
        std::vector<u32> x, y;
        if (toBits(s, a, x) && toBits(s, b, y)) {
            if (pr == C::ICMP_EQ || pr == C::ICMP_NE) {
                bool top = false;
                u32 lit = 0;
                for (int i = w - 1; i >= 0; i--) {
                    if (x[i] == 2 || y[i] == 2) {
                        top = true;
                        continue;
                    }
                    if (x[i] == y[i]) continue;
                    if ((x[i] ^ y[i]) == 1) return pr == C::ICMP_NE;
                    if (!lit) lit = x[i] >= 4 ? x[i] : y[i];
                }
                if (lit) {
                    ForkReq r;
                    for (int v = 0; v < 2; v++) {
                        Alt al;
                        al.k = A_BIT;
                        al.bit = lit >> 1;
                        al.v = v;
                        r.alts.push_back(al);
                    }
                    throw r;
                }
                if (top) return forceTop(s);
                return pr == C::ICMP_EQ;
            }
            bool sg = CmpInst::isSigned(pr);
            if (sg) {
                auto flip = [](u32 l) -> u32 { return l < 2 ? 1 - l : l == 2 ? 2 : l ^ 1; };
                x[w - 1] = flip(x[w - 1]);
                y[w - 1] = flip(y[w - 1]);
            }
            int c = cmpBits(s, x, y);
            if (c == 2) {
                // bounds may still decide (e.g. [0,2^k) against a constant)
                u64 xl = 0, xh = 0, yl = 0, yh = 0;
                for (int i = 0; i < w; i++) {
                    if (x[i] == 1) xl |= 1ull << i;
                    if (x[i] != 0) xh |= 1ull << i;
                    if (y[i] == 1) yl |= 1ull << i;
                    if (y[i] != 0) yh |= 1ull << i;
                }
                switch (pr) {
                    case C::ICMP_ULT:
                    case C::ICMP_SLT:
                        if (xh < yl) return true;
                        if (xl >= yh) return false;
                        break;
                    case C::ICMP_ULE:
                    case C::ICMP_SLE:
                        if (xh <= yl) return true;
                        if (xl > yh) return false;
                        break;
                    case C::ICMP_UGT:
                    case C::ICMP_SGT:
                        if (xl > yh) return true;
                        if (xh <= yl) return false;
                        break;
                    default:
                        if (xl >= yh) return true;
                        if (xh < yl) return false;
                }
                return forceTop(s);
            }
            switch (pr) {
                case C::ICMP_ULT:
                case C::ICMP_SLT: return c < 0;
                case C::ICMP_ULE:
                case C::ICMP_SLE: return c <= 0;
                case C::ICMP_UGT:
                case C::ICMP_SGT: return c > 0;
                default: return c >= 0;
            }
        }
        return forceTop(s);
    }
    P pa, pb;
    if (!toPoly(s, a, pa) || !toPoly(s, b, pb)) return forceTop(s);
    if (pr == C::ICMP_EQ || pr == C::ICMP_NE) {
        P d = s.f.norm(pSub(pa, pb));
        Iv r = s.f.eval(d);
        LD m = p2(w);
        if (!(r.lo > -m && r.hi < m)) {
            if (trace) fprintf(stderr, "  wide eq: %s [%Lg,%Lg]\n", pStr(d).c_str(), r.lo, r.hi);
            pa = normU(s, pa, w);
            pb = normU(s, pb, w);
            if (!pa || !pb) return forceTop(s);
            d = pSub(pa, pb);
        }
        bool e = decEQ(s, d);
        return pr == C::ICMP_EQ ? e : !e;
    }
    bool sg = CmpInst::isSigned(pr);
    pa = sg ? normS(s, pa, w) : normU(s, pa, w);
    pb = sg ? normS(s, pb, w) : normU(s, pb, w);
    if (!pa || !pb) return forceTop(s);
    P d = pSub(pa, pb);
    switch (pr) {
        case C::ICMP_ULT:
        case C::ICMP_SLT: return decGE(s, pNeg(d), true);
        case C::ICMP_ULE:
        case C::ICMP_SLE: return decGE(s, pNeg(d), false);
        case C::ICMP_UGT:
        case C::ICMP_SGT: return decGE(s, d, true);
        default: return decGE(s, d, false);
    }
}
AV Engine::castInt(State& s, unsigned opc, AV v, int w) {
    v = simp(s, v);
    if (v.k == K_UNDEF) {
        v.w = w;
        return v;
    }
    if (v.k == K_IC) {
        if (opc == Instruction::SExt) return mkI((u64)sx(v.c, v.w), w);
        return mkI(v.c, w);
    }
    if (v.k == K_PTR || v.k == K_PTRP || v.k == K_FN) {
        if (w == 64) return v;
        if (v.k == K_PTR && v.obj == 0) return mkI(v.off, w);
        return mkTop(w);
    }
    if (v.k == K_IP) {
        if (opc == Instruction::Trunc) {
            AV r = mkIPoly(v.p, w);
            return r;
        }
        P p = opc == Instruction::SExt ? normS(s, v.p, v.w) : normU(s, v.p, v.w);
        if (!p) return mkTop(w);
        return mkIPoly(p, w);
    }
    std::vector<u32> b;
    toBits(s, v, b);
    u32 top = opc == Instruction::SExt ? b.back() : 0;
    b.resize(w, top);
    return mkBits(b);
}
// --------------------------------------------------------------- floats
bool Engine::toFP(State& s, AV v, P& out) {
    switch (v.k) {
        case K_FC:
            if (!std::isfinite(v.d)) return false;
            out = pConst((Q)v.d);
            return true;
        case K_FP: out = s.f.norm(v.p); return true;
        case K_FB: {
            std::vector<u32> b = v.bv->b;
            for (auto& l : b) {
                int x = s.f.bit(l);
                if (x >= 0) l = x;
            }
            AV c = mkBits(b);
            if (c.k == K_IC) {
                double d;
                if (b.size() == 32) {
                    u32 u = c.c;
                    float f;
                    memcpy(&f, &u, 4);
                    d = f;
                } else
                    memcpy(&d, &c.c, 8);
                if (!std::isfinite(d)) return false;
                out = pConst((Q)d);
                return true;
            }
            out = pSym(mkFun(F_FBITS, pSym(mkBitsSym(internBits(b))), nullptr, false));
            return true;
        }
    }
    return false;
}
static bool proveNZ(State& s, P y) { return proveGE(s.f, y, true) || proveGE(s.f, pNeg(y), true) || decideEQ(s.f, y) == NO; }
AV Engine::fbin(State& s, unsigned opc, AV a, AV b, int w) {
    if (a.k == K_UNDEF || b.k == K_UNDEF) {
        AV u;
        u.k = K_UNDEF;
        u.w = w;
        return u;
    }
    if (a.k == K_FC && b.k == K_FC) {
        double x = a.d, y = b.d, r = 0;
        switch (opc) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            case Instruction::FRem: r = fmod(x, y); break;
        }
        return mkF(r, w);
    }
    // infinities and NaN against finite values
    bool nfa = a.k == K_FC && !std::isfinite(a.d), nfb = b.k == K_FC && !std::isfinite(b.d);
    if ((nfa && std::isnan(a.d)) || (nfb && std::isnan(b.d))) return mkF(NAN, w);
    P x, y;
    if (nfa != nfb) {
        P z;
        if (toFP(s, nfa ? b : a, z)) {
            double inf = nfa ? a.d : b.d;
            auto signOf = [&]() { return decEQ(s, z) ? 0 : decGE(s, z, true) ? 1 : -1; };
            switch (opc) {
                case Instruction::FAdd: return mkF(inf, w);
                case Instruction::FSub: return mkF(nfa ? inf : -inf, w);
                case Instruction::FMul: {
                    int g = signOf();
                    return mkF(g == 0 ? NAN : g * inf, w);
                }
                case Instruction::FDiv:
                    if (nfb) return mkF(0, w);
                    return mkF((signOf() < 0 ? -1 : 1) * inf, w);
                default: return nfa ? mkF(NAN, w) : a;
            }
        }
    }
    if (!toFP(s, a, x) || !toFP(s, b, y)) return mkFTop(w);
    switch (opc) {
        case Instruction::FAdd: return mkFPoly(pAdd(x, y), w);
        case Instruction::FSub: return mkFPoly(pSub(x, y), w);
        case Instruction::FMul: return mkFPoly(pMul(x, y), w);
        case Instruction::FDiv: {
            if (y->isConst()) {
                if (y->cst() == 0) {  // the IEEE result of a zero divisor (positive, unless it is known to be -0)
                    if (decEQ(s, x)) return mkF(NAN, w);
                    double inf = b.k == K_FC && std::signbit(b.d) ? -HUGE_VAL : HUGE_VAL;
                    return mkF(decGE(s, x, true) ? inf : -inf, w);
                }
                return mkFPoly(pScale(x, (Q)1 / y->cst()), w);
            }
            if (x == y) return mkF(1, w);
            if (!s.f.bad && !proveNZ(s, y)) {
                if (decEQ(s, y)) {  // a zero divisor: the IEEE result
                    if (x->isConst()) return x->cst() == 0 ? mkF(NAN, w) : mkF((double)x->cst() / 0.0, w);
                    if (decEQ(s, x)) return mkF(NAN, w);
                    return mkF(decGE(s, x, true) ? HUGE_VAL : -HUGE_VAL, w);
                }
                y = s.f.norm(y);
                if (y->isConst()) return y->cst() == 0 ? mkFTop(w) : mkFPoly(pScale(x, (Q)1 / y->cst()), w);
            }
            // normalise leading coefficient
            Q lc = y->t.back().second;
            P yn = pScale(y, (Q)1 / lc);
            P inv;
            if (yn->t.size() == 1) {  // 1/(x*y) = 1/x * 1/y
                inv = pConst((Q)1 / lc);
                for (auto& se : MT.v[yn->t[0].first])
                    for (u32 e = 0; e < se.second; e++)
                        inv = pMul(inv, SY[se.first].kind == S_FUN && SY[se.first].fn == F_INV ? SY[se.first].a
                                                                                               : pSym(mkFun(F_INV, pSym(se.first), nullptr, false)));
            } else
                inv = pScale(pSym(mkFun(F_INV, yn, nullptr, false)), (Q)1 / lc);
            // exact multiples cancel
            if (x->t.size() == y->t.size() && !x->t.empty() && x->t.back().first == y->t.back().first) {
                Q k = x->t.back().second / lc;
                if (pSub(x, pScale(y, k))->t.empty()) return mkF((double)k, w);
            }
            return mkFPoly(pMul(x, inv), w);
        }
        case Instruction::FRem: {
            AV q = fbin(s, Instruction::FDiv, a, b, w);
            AV t = ffloor(s, q, 2);
            return fbin(s, Instruction::FSub, a, fbin(s, Instruction::FMul, b, t, w), w);
        }
    }
    return mkFTop(w);
}
AV Engine::fabsv(State& s, AV v) {
    if (v.k == K_UNDEF) return v;
    if (v.k == K_FC) return mkF(fabs(v.d), v.w);
    if (v.k == K_FB) {
        AV r = v;
        std::vector<u32> b = v.bv->b;
        b.back() = 0;
        r.bv = internBits(b);
        return r;
    }
    P x;
    if (!toFP(s, v, x)) return mkFTop(v.w);
    return mkFPoly(decGE(s, x, false) ? x : pNeg(x), v.w);
}
bool Engine::fcmp(State& s, CmpInst::Predicate pr, AV a, AV b) {
    typedef CmpInst C;
    if (pr == C::FCMP_ORD) {
        if (a.k == K_FC && std::isnan(a.d)) return false;
        if (b.k == K_FC && std::isnan(b.d)) return false;
        if (a.k == K_FT || b.k == K_FT) return forceTop(s);
        return true;
    }
    if (pr == C::FCMP_UNO) return !fcmp(s, C::FCMP_ORD, a, b);
    if (pr == C::FCMP_TRUE) return true;
    if (pr == C::FCMP_FALSE) return false;
    bool lt, eq;
    bool nan = (a.k == K_FC && std::isnan(a.d)) || (b.k == K_FC && std::isnan(b.d));
    if (nan) return CmpInst::isUnordered(pr);
    int c;  // -1,0,1
    bool wantLT = false, wantGT = false, wantEQ = false;
    switch (pr) {
        case C::FCMP_OEQ: case C::FCMP_UEQ: wantEQ = true; break;
        case C::FCMP_ONE: case C::FCMP_UNE: wantLT = wantGT = true; break;
        case C::FCMP_OLT: case C::FCMP_ULT: wantLT = true; break;
        case C::FCMP_OLE: case C::FCMP_ULE: wantLT = wantEQ = true; break;
        case C::FCMP_OGT: case C::FCMP_UGT: wantGT = true; break;
        default: wantGT = wantEQ = true;
    }
    (void)lt;
    (void)eq;
    if (a.k == K_FC && b.k == K_FC) {
        c = a.d < b.d ? -1 : a.d > b.d ? 1 : 0;
        return c < 0 ? wantLT : c > 0 ? wantGT : wantEQ;
    }
    // infinities against finite polynomials
    for (int sw = 0; sw < 2; sw++) {
        AV x = sw ? b : a, y = sw ? a : b;
        if (x.k == K_FC && std::isinf(x.d) && y.k != K_FC && y.k != K_FT && y.k != K_UNDEF) {
            c = x.d > 0 ? 1 : -1;
            if (sw) c = -c;
            return c < 0 ? wantLT : c > 0 ? wantGT : wantEQ;
        }
    }
    if (a.k == K_FB || b.k == K_FB) {
        // sign-magnitude comparison of bit patterns (finite values)
        auto bitsOf = [&](AV v, std::vector<u32>& out) -> bool {
            if (v.k == K_FB) {
                out = v.bv->b;
                for (auto& l : out) {
                    int x = s.f.bit(l);
                    if (x >= 0) l = x;
                }
                return true;
            }
            if (v.k == K_FC) {
                u64 u;
                size_t nb = a.k == K_FB ? a.bv->b.size() : b.bv->b.size();
                if (nb == 32 && (double)(float)v.d == v.d) v.w = 32;
                if (v.w == 32) {
                    float f = v.d;
                    u32 q;
                    memcpy(&q, &f, 4);
                    u = q;
                } else
                    memcpy(&u, &v.d, 8);
                out.clear();
                for (int i = 0; i < v.w; i++) out.push_back((u >> i) & 1);
                return true;
            }
            return false;
        };
        std::vector<u32> x, y;
        if (bitsOf(a, x) && bitsOf(b, y) && x.size() == y.size()) {
            if (x == y) {
                bool top = false;
                for (u32 l : x)
                    if (l == 2) top = true;
                if (!top) return wantEQ;
            }
            auto need = [&](u32 l) {
                if (l >= 4) {
                    ForkReq r;
                    for (int v = 0; v < 2; v++) {
                        Alt al;
                        al.k = A_BIT;
                        al.bit = l >> 1;
                        al.v = v;
                        r.alts.push_back(al);
                    }
                    throw r;
                }
            };
            u32 sa = x.back(), sb = y.back();
            need(sa);
            need(sb);
            if (sa == 2 || sb == 2) return forceTop(s);
            x.back() = y.back() = 0;
            std::vector<u32> z(x.size(), 0);
            if (sa != sb) {
                bool nza = false, nzb = false;
                for (u32 l : x)
                    if (l == 1) nza = true;
                for (u32 l : y)
                    if (l == 1) nzb = true;
                if (!nza && !nzb) {
                    int ca = cmpBits(s, x, z), cb = cmpBits(s, y, z);
                    if (ca == 2 || cb == 2) return forceTop(s);
                    if (ca == 0 && cb == 0) return wantEQ;
                }
                return sa ? wantLT : wantGT;
            }
            c = cmpBits(s, x, y);
            if (c == 2) return forceTop(s);
            if (sa) c = -c;
            return c < 0 ? wantLT : c > 0 ? wantGT : wantEQ;
        }
    }
    P x, y;
    if (!toFP(s, a, x) || !toFP(s, b, y)) return forceTop(s);
    P d = pSub(x, y);
    if (wantEQ && !wantLT && !wantGT) return decEQ(s, d);
    if (!wantEQ && wantLT && wantGT) return !decEQ(s, d);
    if (wantLT) return decGE(s, pNeg(d), !wantEQ);
    return decGE(s, d, !wantEQ);
}
AV Engine::ffloor(State& s, AV v, int mode) {
    if (v.k == K_UNDEF) return v;
    if (v.k == K_FC) {
        double r = mode == 0 ? floor(v.d) : mode == 1 ? ceil(v.d) : mode == 2 ? trunc(v.d) : round(v.d);
        return mkF(r, v.w);
    }
    P x;
    if (!toFP(s, v, x)) return mkFTop(v.w);
    if (x->isInt) return v;
    if (mode == 3) {
        if (decGE(s, x, false)) return ffloor(s, mkFPoly(pAddC(x, (Q)0.5), v.w), 0);
        AV r = ffloor(s, mkFPoly(pAddC(pNeg(x), (Q)0.5), v.w), 0);
        P q;
        toFP(s, r, q);
        return mkFPoly(pNeg(q), v.w);
    }
    if (mode == 2) {
        if (decGE(s, x, false)) mode = 0;
        else mode = 1;
    }
    if (mode == 1) x = pNeg(x);
    // peel the integer-valued part: floor(n + y) = n + floor(y)
    P ip = pConst(0), rest = pConst(0);
    for (auto& t : x->t) {
        P term = mkPoly({{t.first, t.second}});
        if (term->isInt) ip = pAdd(ip, term);
        else if (t.first == 0) {
            Q fl = floorq(t.second);
            ip = pAddC(ip, fl);
            rest = pAddC(rest, t.second - fl);
        } else
            rest = pAdd(rest, term);
    }
    P fl;
    if (rest->t.empty()) fl = ip;
    else {
        Iv r = s.f.eval(rest);
        LD f0 = floorl(r.lo);
        if (r.lo > -INF && (r.hi < f0 + 1 || proveGE(s.f, pSub(pConst((Q)(f0 + 1)), rest), true))) fl = pAddC(ip, (Q)f0);
        else if (r.lo > -INF && r.hi < f0 + 4) {  // few values: one partition each
            int k = 1;
            while (f0 + k <= r.hi && decGE(s, pAddC(rest, -(Q)(f0 + k)), false)) k++;
            fl = pAddC(ip, (Q)(f0 + k - 1));
        } else {
            u32 sy = mkFun(F_FLOOR, rest, nullptr, true);
            P fs = pSym(sy);
            // defining constraints
            s.f.add(pSub(rest, fs), FK_GE);
            s.f.add(pAddC(pSub(fs, rest), 1), FK_GT);
            fl = pAdd(ip, fs);
        }
    }
    return mkFPoly(mode == 1 ? pNeg(fl) : fl, v.w);
}
AV Engine::fpToInt(State& s, AV v, int w, bool sgn) {
    if (v.k == K_UNDEF) {
        v.w = w;
        return v;
    }
    if (v.k == K_FC) {
        double t = trunc(v.d);
        if (!(t >= (sgn ? -ldexp(1, w - 1) : 0) && t < ldexp(1, sgn ? w - 1 : w)))
            return sgn && (w == 32 || w == 64) ? mkI(1ull << (w - 1), w) : mkTop(w);  // out of range: what the target's conversion yields
        return mkI(sgn ? (u64)(i64)t : (u64)t, w);
    }
    AV t = ffloor(s, v, 2);
    if (t.k == K_FC) return fpToInt(s, t, w, sgn);
    P x;
    if (!toFP(s, t, x) || !x->isInt) return mkTop(w);
    return mkIPoly(x, w);
}
AV Engine::intToFp(State& s, AV v, int w, bool sgn) {
    v = simp(s, v);
    if (v.k == K_UNDEF) {
        v.w = w;
        return v;
    }
    if (v.k == K_IC) return mkF(sgn ? (double)sx(v.c, v.w) : (double)v.c, w);
    P p;
    if (!toPoly(s, v, p)) return mkFTop(w);
    p = sgn ? normS(s, p, v.w) : normU(s, p, v.w);
    if (!p) return mkFTop(w);
    return mkFPoly(p, w);
}
AV Engine::fmath(State& s, int fn, AV a, AV b, int w) {
    if (a.k == K_UNDEF) return a;
    if (a.k == K_FC && (fn != F_ATAN2 || b.k == K_FC)) {
        double r = 0;
        if (w == 32) {
            float x = a.d;
            switch (fn) {
                case F_SIN: r = sinf(x); break;
                case F_COS: r = cosf(x); break;
                case F_TAN: r = tanf(x); break;
                case F_SQRT: r = sqrtf(x); break;
                case F_EXP: r = expf(x); break;
                case F_LOG: r = logf(x); break;
                case F_ATAN: r = atanf(x); break;
                case F_ATAN2: r = atan2f(x, b.d); break;
            }
        } else
            switch (fn) {
                case F_SIN: r = sin(a.d); break;
                case F_COS: r = cos(a.d); break;
                case F_TAN: r = tan(a.d); break;
                case F_SQRT: r = sqrt(a.d); break;
                case F_EXP: r = exp(a.d); break;
                case F_LOG: r = log(a.d); break;
                case F_ATAN: r = atan(a.d); break;
                case F_ATAN2: r = atan2(a.d, b.d); break;
            }
        return mkF(r, w);
    }
    P x, y = nullptr;
    if (!toFP(s, a, x)) return mkFTop(w);
    if (fn == F_ATAN2 && !toFP(s, b, y)) return mkFTop(w);
    if (fn == F_SIN || fn == F_COS) {
        // whole quarter turns are exact: the double nearest to a multiple of pi/2 stands for it
        {
            Q c0 = 0;
            for (auto& t : x->t)
                if (t.first == 0) c0 = t.second;
            Q n = roundq(c0 / M_PI_2q);
            Q rem = c0 - n * M_PI_2q;
            if (c0 != 0 && fabsq(rem) < (Q)1e-12 * (1 + fabsq(n)) && fabsq(n) < 1e6) {
                int qd = ((int)(long)n % 4 + 4) % 4;
                P y = pAddC(x, -c0);
                if (qd) {
                    AV base = fmath(s, (qd % 2) ? (fn == F_SIN ? F_COS : F_SIN) : fn, mkFPoly(y, w), b, w);
                    P q;
                    toFP(s, base, q);
                    bool neg = fn == F_SIN ? qd >= 2 : (qd == 1 || qd == 2);
                    return mkFPoly(neg ? pNeg(q) : q, w);
                }
                x = y;
            }
        }
        // degrees to radians: one factor, however the conversion is written
        {
            P z = nullptr;
            for (auto& t : x->t) {
                if (t.first == 0) continue;
                Q u = t.second * 180 / M_PIq, n = roundq(u * 12);
                if (n == 0 || fabsq(n) > 1e6 || fabsq(u * 12 - n) > (Q)1e-13 * fabsq(n)) continue;
                Q c = n / 12 * (M_PIq / 180);
                if (c != t.second) z = pAdd(z ? z : x, mkPoly({{t.first, c - t.second}}));
            }
            if (z && !z->isConst()) x = z;
        }
        // sign normalisation: leading coefficient positive
        Q lc = x->t.back().second;
        if (lc < 0) {
            P sy = pSym(mkFun(fn, pNeg(x), nullptr, false));
            return mkFPoly(fn == F_SIN ? pNeg(sy) : sy, w);
        }
        // integer multiples of an angle expand with Chebyshev recurrences: k*(t) for 2 <= k <= 64
        if (x->t.size() == 1) {
            Q k = lc;
            const MonoV m = MT.v[x->t[0].first];
            if (isIntQ(k) && k >= 2 && k <= 64 && m.size() == 1 && !SY[m[0].first].isInt) {
                P th = pSym(m[0].first);
                P c1 = pSym(mkFun(F_COS, th, nullptr, false)), s1 = pSym(mkFun(F_SIN, th, nullptr, false));
                P c = c1, sn = s1;
                for (int i = 1; i < (int)k; i++) {
                    P nc = pSub(pMul(c, c1), pMul(sn, s1));
                    P ns = pAdd(pMul(sn, c1), pMul(c, s1));
                    c = nc;
                    sn = ns;
                }
                return mkFPoly(fn == F_SIN ? sn : c, w);
            }
        }
    }
    if (fn == F_SQRT) {
        // perfect square of a single symbol or scaled square
        if (x->t.size() == 1) {
            const MonoV m = MT.v[x->t[0].first];
            bool even = x->t[0].second > 0;
            MonoV h;
            for (auto& se : m) {
                if (se.second % 2) even = false;
                h.push_back({se.first, se.second / 2});
            }
            if (even) {
                P r = mkPoly({{MT.intern(h), sqrtq(x->t[0].second)}});
                return mkFPoly(decGE(s, r, false) ? r : pNeg(r), w);
            }
        }
    }
    return mkFPoly(pSym(mkFun(fn, x, y, false)), w);
}
