#include "interp.h"
#include <quadmath.h>
#include "models.h"
using namespace llvm;

static bool pre(const std::string& n, const char* p) { return n.compare(0, strlen(p), p) == 0; }
int Engine::modelOf(Function* F) {
    std::string n = F->getName().str();
    static const std::map<std::string, int> tab = {
        {"va_choice", M_VA_CHOICE}, {"va_int", M_VA_INT}, {"va_real", M_VA_REAL}, {"va_bits", M_VA_BITS}, {"va_assume", M_VA_ASSUME},
        {"va_assert", M_VA_ASSERT}, {"va_near", M_VA_NEAR}, {"va_ge", M_VA_GE}, {"va_reach", M_VA_REACH}, {"va_exit_ok", M_VA_EXITOK},
        {"va_tier", M_VA_TIER}, {"va_long", M_VA_LONG}, {"va_conc", M_VA_CONC}, {"va_print", M_VA_PRINT}, {"va_printd", M_VA_PRINT}, {"va_isconst", M_VA_ISCONST}, {"va_isconstd", M_VA_ISCONST},
        {"malloc", M_MALLOC}, {"_Znwm", M_MALLOC}, {"_Znam", M_MALLOC}, {"_ZnwmSt11align_val_t", M_MALLOC}, {"_ZnamSt11align_val_t", M_MALLOC},
        {"_ZnwmRKSt9nothrow_t", M_MALLOC}, {"_ZnamRKSt9nothrow_t", M_MALLOC}, {"calloc", M_CALLOC}, {"realloc", M_REALLOC},
        {"free", M_FREE}, {"_ZdlPv", M_FREE}, {"_ZdaPv", M_FREE}, {"_ZdlPvm", M_FREE}, {"_ZdaPvm", M_FREE}, {"_ZdlPvSt11align_val_t", M_FREE},
        {"_ZdlPvmSt11align_val_t", M_FREE}, {"_ZdaPvSt11align_val_t", M_FREE}, {"_ZdlPvRKSt9nothrow_t", M_FREE},
        {"memcpy", M_MEMCPY}, {"memmove", M_MEMCPY}, {"memset", M_MEMSET}, {"memcmp", M_MEMCMP}, {"bcmp", M_MEMCMP}, {"strlen", M_STRLEN},
        {"memchr", M_MEMCHR}, {"strcmp", M_STRCMP}, {"exit", M_EXIT}, {"_exit", M_EXIT}, {"abort", M_EXIT}, {"__assert_fail", M_EXIT},
        {"_ZSt9terminatev", M_EXIT}, {"__clang_call_terminate", M_EXIT}, {"__cxa_pure_virtual", M_EXIT}, {"quick_exit", M_EXIT},
        {"__cxa_guard_acquire", M_GUARD_ACQ}, {"__cxa_guard_release", M_GUARD_REL}, {"__cxa_guard_abort", M_NOP}, {"__cxa_atexit", M_RET0},
        {"__cxa_allocate_exception", M_ALLOCEXC}, {"__cxa_free_exception", M_NOP}, {"__cxa_throw", M_THROW}, {"__cxa_begin_catch", M_BEGINCATCH},
        {"__cxa_end_catch", M_ENDCATCH}, {"__cxa_rethrow", M_RETHROW}, {"getenv", M_GETENV},
        {"__gxx_personality_v0", M_NOP},
        {"__isnan", M_ISNANF}, {"isnan", M_ISNANF}, {"__finite", M_ISFINITE}, {"finite", M_ISFINITE}};
    auto it = tab.find(n);
    if (it != tab.end()) return it->second;
    if (pre(n, "llvm.")) {
        if (pre(n, "llvm.dbg") || pre(n, "llvm.lifetime") || pre(n, "llvm.assume") || pre(n, "llvm.stack") || pre(n, "llvm.experimental.noalias") ||
            pre(n, "llvm.donothing") || pre(n, "llvm.va_") || pre(n, "llvm.prefetch"))
            return M_NOP;
        if (pre(n, "llvm.memcpy") || pre(n, "llvm.memmove")) return M_MEMCPY;
        if (pre(n, "llvm.memset")) return M_MEMSET;
        if (pre(n, "llvm.trap") || pre(n, "llvm.ubsantrap")) return M_EXIT;
        if (pre(n, "llvm.eh.typeid.for")) return M_TYPEID;
        if (pre(n, "llvm.fabs")) return M_FABS;
        if (pre(n, "llvm.sqrt") || pre(n, "llvm.sin") || pre(n, "llvm.cos") || pre(n, "llvm.exp.") || pre(n, "llvm.log.")) return M_FN1;
        if (pre(n, "llvm.floor") || pre(n, "llvm.ceil") || pre(n, "llvm.trunc.") || pre(n, "llvm.round.")) return M_FLOOR;
        if (pre(n, "llvm.fmuladd") || pre(n, "llvm.fma.")) return M_FMULADD;
        if (pre(n, "llvm.pow.") || pre(n, "llvm.powi.")) return M_POW;
        if (pre(n, "llvm.maxnum") || pre(n, "llvm.minnum")) return M_FMINMAX;
        if (pre(n, "llvm.copysign")) return M_COPYSIGN;
        if (pre(n, "llvm.ctlz")) return M_CTLZ;
        if (pre(n, "llvm.cttz")) return M_CTTZ;
        if (pre(n, "llvm.ctpop")) return M_CTPOP;
        if (pre(n, "llvm.smax") || pre(n, "llvm.smin") || pre(n, "llvm.umax") || pre(n, "llvm.umin")) return M_MINMAX;
        if (pre(n, "llvm.abs")) return M_ABS;
        if (n.find(".with.overflow") != std::string::npos) return M_OVF;
        if (pre(n, "llvm.expect")) return M_ARG0;
        if (pre(n, "llvm.objectsize")) return M_OBJSIZE;
        if (pre(n, "llvm.is.constant")) return M_RET0;
        if (pre(n, "llvm.is.fpclass")) return M_ISNANF;
        return M_NONE;
    }
    static const std::set<std::string> f1 = {"sin", "cos", "tan", "sqrt", "exp", "log", "atan", "atan2"};
    static const std::set<std::string> fh = {"log2", "log10", "exp2", "expm1", "log1p", "cbrt", "asin", "acos", "sinh", "cosh", "tanh", "rint", "nearbyint", "logb", "remainder", "fdim", "nextafter", "lrint", "llrint", "ilogb"};
    static const std::set<std::string> fl = {"floor", "ceil", "trunc", "round"};
    std::string base = n;
    for (int i = 0; i < 2; i++) {
        if (f1.count(base)) return M_FN1;
        if (fh.count(base) && F->isDeclaration()) return M_HOST;
        if (fl.count(base)) return M_FLOOR;
        if (base == "fabs") return M_FABS;
        if (base == "pow") return M_POW;
        if (base == "fmod") return M_FMOD;
        if (base == "fmax" || base == "fmin") return M_FMINMAX;
        if (base == "fma") return M_FMULADD;
        if (base == "lround" || base == "llround") return M_LROUND;
        if (base == "hypot") return M_HYPOT;
        if (base == "copysign") return M_COPYSIGN;
        if (base == "ldexp" || base == "scalbn") return M_LDEXP;
        if (!F->isDeclaration()) break;
        if (base.size() > 1 && (base.back() == 'f' || base.back() == 'l')) base.pop_back();
        else break;
    }
    if (!F->isDeclaration() && M->getFunction("va_model_streams")) return n.find("__throw_") != std::string::npos ? M_STDTHROW : M_NONE;
    // formatted output is not part of any property: returns its stream argument
    if (pre(n, "_ZNSo") || pre(n, "_ZStls") || pre(n, "_ZSt4endl") || pre(n, "_ZSt5flush") || pre(n, "_ZSt4ends") || pre(n, "_ZNSt8ios_base") || pre(n, "_ZNKSt8ios_base") ||
        pre(n, "_ZNSt9basic_ios") || pre(n, "_ZNKSt9basic_ios") || pre(n, "_ZSt16__ostream_insert") || pre(n, "_ZNSt14basic_ofstream") ||
        pre(n, "_ZNSt13basic_filebuf") || pre(n, "_ZNSt15basic_streambuf") || pre(n, "_ZSt5fixed") || pre(n, "_ZSt10scientific") || pre(n, "_ZNSt6locale"))
        return M_STREAM;
    if (n.find("__throw_") != std::string::npos && pre(n, "_ZSt")) return M_STDTHROW;
    if (n.find("chrono") != std::string::npos && n.size() > 5 && n.find("3nowEv") != std::string::npos) return F->isDeclaration() ? M_CLOCK : M_NONE;
    return M_NONE;
}
// clears the denominators of a rational expression and tells whether nothing is left
static bool vanishes(P d) {
    for (int round = 0; round < 6; round++) {
        if (d->t.empty()) return true;
        if (d->t.size() > 4000) return false;
        u32 inv = ~0u, deg = 0;
        for (auto& t : d->t)
            for (auto& se : MT.v[t.first])
                if (SY[se.first].kind == S_FUN && SY[se.first].fn == F_INV && (inv == ~0u || se.first > inv)) inv = se.first;
        if (inv == ~0u) return false;
        for (auto& t : d->t)
            for (auto& se : MT.v[t.first])
                if (se.first == inv && se.second > deg) deg = se.second;
        std::vector<P> pw{pConst(1)};
        for (u32 e = 1; e <= deg; e++) pw.push_back(pMul(pw.back(), SY[inv].a));
        std::map<u32, std::pair<Q, Q>> acc;
        for (auto& t : d->t) {
            MonoV rest;
            u32 e = 0;
            for (auto& se : MT.v[t.first])
                if (se.first == inv) e = se.second;
                else rest.push_back(se);
            P q = pMul(mkPoly({{MT.intern(rest), t.second}}), pw[deg - e]);
            for (auto& x : q->t) {
                auto& a = acc[x.first];
                a.first += x.second;
                a.second += fabsq(x.second);
            }
        }
        std::vector<std::pair<u32, Q>> r;
        for (auto& x : acc)
            if (fabsq(x.second.first) > x.second.second * (Q)1e-13) r.push_back({x.first, x.second.first});
        d = mkPoly(std::move(r));
    }
    return d->t.empty();
}
bool Engine::builtin(State& s, Frame*& fr, Ins& in, int m, std::vector<AV>& a, AV& ret, Function* F, bool& handled) {
    std::string fname;
    switch (m) {  // a numeric function of an uninitialised value is uninitialised
        case M_FN1: case M_HOST: case M_FLOOR: case M_LROUND: case M_FABS: case M_FMOD: case M_HYPOT: case M_LDEXP: case M_POW: case M_FMINMAX: case M_FMULADD:
        case M_COPYSIGN: case M_CTLZ: case M_CTTZ: case M_CTPOP: case M_MINMAX: case M_ABS:
            for (size_t i = 0; i < a.size() && i < 2; i++)
                if (a[i].k == K_UNDEF && !(i == 1 && (m == M_ABS || m == M_CTLZ || m == M_CTTZ))) {
                    ret = a[i];
                    ret.w = in.tw;
                    return true;
                }
        default: break;
    }
    switch (m) {
        case M_VA_CHOICE: {
            i64 n = concretize(s, a[0], true, "va_choice");
            if (s.forcedSet) {
                s.forcedSet = false;
                s.choices.push_back({in.loc, s.forced});
                ret = mkI(s.forced, 32);
                return true;
            }
            ForkReq r;
            for (i64 i = 0; i < n; i++) {
                Alt al;
                al.k = A_FORCE;
                al.v = i;
                r.alts.push_back(al);
            }
            throw r;
        }
        case M_VA_INT: {
            i64 lo = concretize(s, a[0], true, "va_int lo"), hi = concretize(s, a[1], true, "va_int hi");
            if (lo > hi) return false;
            u32 sy = mkSym("i" + std::to_string(s.nsym++), true, lo, hi);
            ret = mkIPoly(pSym(sy), 64);
            if (lo == hi) ret = mkI(lo, 64);
            return true;
        }
        case M_VA_REAL: {
            if (a[0].k != K_FC || a[1].k != K_FC) throw KillPath{"va_real bounds", true};
            u32 sy = mkSym("r" + std::to_string(s.nsym++), false, a[0].d, a[1].d);
            ret = mkFPoly(pSym(sy), 64);
            return true;
        }
        case M_VA_BITS: {
            i64 w = concretize(s, a[0], true, "va_bits");
            std::vector<u32> b(64, 0);
            for (int i = 0; i < w; i++) b[i] = 2 * (2 + s.nsym * 64 + i);
            s.nsym++;
            ret = mkBits(b);
            return true;
        }
        case M_VA_ASSUME: {
            AV c = simp(s, a[0]);
            if (c.k == K_UNDEF) throw KillPath{"assume on undef", true};
            bool v = c.k == K_IC ? c.c : !icmp(s, CmpInst::ICMP_EQ, c, mkI(0, c.w));
            if (!v) {
                killedInfeasible++;
                throw KillPath{"assume", false};
            }
            return true;
        }
        case M_VA_ASSERT: {
            std::string msg = cstr(s, a[1]);
            AV c = simp(s, a[0]);
            if (c.k == K_UNDEF) {
                fail(s, &in, "assert", msg + " (value is uninitialised)");
                return false;
            }
            bool v = c.k == K_IC ? c.c : !icmp(s, CmpInst::ICMP_EQ, c, mkI(0, c.w));
            if (!v) {
                fail(s, &in, "assert", msg);
                return false;
            }
            proved["assert: " + msg]++;
            return true;
        }
        case M_VA_NEAR:
        case M_VA_GE: {
            std::string msg = cstr(s, a[3]);
            double tol = a[2].k == K_FC ? a[2].d : 0;
            if (a[0].k == K_UNDEF || a[1].k == K_UNDEF) {
                fail(s, &in, "assert", msg + " (value is uninitialised)");
                return false;
            }
            if (a[0].k == K_FC && a[1].k == K_FC) {
                bool okv = m == M_VA_NEAR ? fabs(a[0].d - a[1].d) <= tol : a[0].d >= a[1].d - tol;
                if (!okv) {
                    char b[200];
                    snprintf(b, sizeof b, "got %.17g, expected %.17g, tolerance %g", a[0].d, a[1].d, tol);
                    fail(s, &in, "near", msg, b);
                    return false;
                }
                proved["assert: " + msg]++;
                return true;
            }
            P x, y;
            if (!toFP(s, a[0], x) || !toFP(s, a[1], y)) {
                if ((a[0].k == K_FC && !std::isfinite(a[0].d)) && a[1].k != K_FT) {
                    fail(s, &in, "near", msg + " (not finite)");
                    return false;
                }
                undecided["near: " + msg + " (imprecise value)"]++;
                return true;
            }
            P d = s.f.norm(pSub(x, y));
            if (vanishes(d)) {
                proved["assert: " + msg]++;
                return true;
            }
            if ((proveGE(s.f, pAddC(d, tol), false) && (m == M_VA_GE || proveGE(s.f, pSub(pConst(tol), d), false))) ||
                (bnbProve(s.f, pAddC(d, tol), 0, 600) && (m == M_VA_GE || bnbProve(s.f, pSub(pConst(tol), d), 0, 600)))) {
                proved["assert: " + msg]++;
                return true;
            }
            if (!s.tainted) {
                Assign as;
                std::map<u32, bool> bits;
                LD slack = fabsl((LD)tol) * 1e-6L + 1e-13L;
                bool w = findWitness(s.f, as, bits, 6000, [&](Assign& q, std::map<u32, bool>& bb) {
                    LD v;
                    if (!evalAt(d, q, bb, v)) return false;
                    return m == M_VA_NEAR ? fabsl(v) > tol + slack : v < -tol - slack;
                });
                if (w) {
                    // pin the witness so that the report shows it
                    LD v;
                    evalAt(d, as, bits, v);
                    char b[200];
                    snprintf(b, sizeof b, "difference %.10Lg at the witness, tolerance %g", v, tol);
                    std::string det = b;
                    det += "; witness:";
                    for (auto& q : as)
                        if (SY[q.first].kind == S_INPUT) {
                            snprintf(b, sizeof b, " %s=%.12Lg", SY[q.first].name.c_str(), q.second);
                            det += b;
                        }
                    fail(s, &in, "near", msg, det);
                    return false;
                }
            }
            if (bnbProve(s.f, pAddC(d, tol), 0, 20000) && (m == M_VA_GE || bnbProve(s.f, pSub(pConst(tol), d), 0, 20000))) {
                proved["assert: " + msg]++;
                return true;
            }
            undecided["near: " + msg + " @" + locStr(s, &in)]++;
            undecidedSample["near: " + msg] = pStr(d);
            return true;
        }
        case M_VA_REACH: reach[cstr(s, a[0])]++; return true;
        case M_VA_EXITOK: s.exitMode = (int)concretize(s, a[0], true, "va_exit_ok"); return true;
        case M_VA_LONG: maxPath = std::max<u64>(maxPath, (u64)concretize(s, a[0], true, "va_long")); return true;
        case M_VA_TIER: ret = mkI(tier, 32); return true;
        case M_VA_CONC: ret = mkI((u64)concretize(s, a[0], true, "va_conc"), 64); return true;
        case M_VA_ISCONST: {
            AV v = simp(s, a[0]);
            ret = mkI(v.k == K_IC || v.k == K_FC, 32);
            return true;
        }
        case M_VA_PRINT: {
            AV v = simp(s, a[0]);
            std::string t = v.k == K_IC ? std::to_string((long long)sx(v.c, v.w)) : v.k == K_FC ? std::to_string(v.d) : (v.k == K_IP || v.k == K_FP) ? pStr(s.f.norm(v.p)) : "kind" + std::to_string(v.k);
            if (v.k == K_IB)
                for (u32 l : v.bv->b) t += " " + std::to_string(l);
            fprintf(stderr, "PRINT %s\n", t.c_str());
            return true;
        }
        case M_MALLOC: {
            i64 n = concretize(s, a[0], false, "allocation size");
            if (n < 0 || n > (1ll << 32)) {
                fail(s, &in, "alloc", "allocation of an absurd size (" + std::to_string(n) + " bytes)");
                return false;
            }
            u32 o = newObj(s, n, true, "heap");
            ret = mkPtr(o, 0);
            return true;
        }
        case M_CALLOC: {
            i64 n = concretize(s, a[0], false, "allocation size") * concretize(s, a[1], false, "allocation size");
            u32 o = newObj(s, n, true, "heap");
            AV z;
            z.k = K_ZERO;
            if (n) writeCell(*s.mem[o], 0, n, z);
            ret = mkPtr(o, 0);
            return true;
        }
        case M_REALLOC: {
            i64 n = concretize(s, a[1], false, "allocation size");
            u32 o = newObj(s, n, true, "heap");
            AV p = a[0];
            if (p.k == K_PTR && p.obj) {
                if (!check(s, in, p, 0, false)) return false;
                u64 cs = std::min<u64>(n, s.mem[p.obj]->size);
                copyMem(s, o, 0, p.obj, 0, cs);
                wobj(s, p.obj).freed = true;
            }
            ret = mkPtr(o, 0);
            return true;
        }
        case M_FREE: {
            AV p = a[0];
            if (p.k == K_PTR && p.obj == 0) return true;
            if (p.k != K_PTR) throw KillPath{"free of unknown pointer", true};
            if (!s.mem[p.obj] || s.mem[p.obj]->freed) {
                fail(s, &in, "uaf", "double free");
                return false;
            }
            if (!s.mem[p.obj]->heap || p.off != 0) {
                fail(s, &in, "uaf", "free of a non-heap pointer");
                return false;
            }
            auto o = std::make_shared<Obj>();
            o->size = s.mem[p.obj]->size;
            o->freed = true;
            o->heap = true;
            s.mem[p.obj] = o;
            ok("release");
            return true;
        }
        case M_MEMCPY: {
            i64 n = concretize(s, a[2], false, "copy size");
            ret = a[0];
            if (n == 0) return true;
            AV d = a[0], q = a[1];
            if (!check(s, in, d, n, true) || !check(s, in, q, n, false)) return false;
            copyMem(s, d.obj, d.off, q.obj, q.off, n);
            return true;
        }
        case M_MEMSET: {
            i64 n = concretize(s, a[2], false, "fill size");
            ret = a[0];
            if (n == 0) return true;
            AV d = a[0];
            if (!check(s, in, d, n, true)) return false;
            i64 v = concretize(s, a[1], false, "fill value") & 255;
            Obj& o = wobj(s, d.obj);
            if (o.opaque) return true;
            eraseRange(o, d.off, n);
            if (v == 0) {
                AV z;
                z.k = K_ZERO;
                writeCell(o, d.off, n, z);
            } else
                for (i64 i = 0; i < n; i++) writeCell(o, d.off + i, 1, mkI(v, 8));
            return true;
        }
        case M_MEMCMP: {
            i64 n = concretize(s, a[2], false, "compare size");
            ret = mkI(0, 32);
            if (n == 0) return true;
            AV x = a[0], y = a[1];
            if (!check(s, in, x, n, false) || !check(s, in, y, n, false)) return false;
            Type* B = Type::getInt8Ty(M->getContext());
            for (i64 i = 0; i < n; i++) {
                // whole equal-typed cells compare as values
                size_t ci = s.mem[x.obj]->lb(x.off + i), cj = s.mem[y.obj]->lb(y.off + i);
                auto& A1 = *s.mem[x.obj];
                auto& B1 = *s.mem[y.obj];
                if (ci < A1.cells.size() && cj < B1.cells.size() && A1.cells[ci].off == x.off + i && B1.cells[cj].off == y.off + i && A1.cells[ci].sz == B1.cells[cj].sz &&
                    A1.cells[ci].sz > 1 && (i64)(i + A1.cells[ci].sz) <= n && A1.cells[ci].v.k != K_ZERO && B1.cells[cj].v.k != K_ZERO) {
                    AV u = A1.cells[ci].v, v = B1.cells[cj].v;
                    if ((u.k == K_IP || u.k == K_IC) && (v.k == K_IP || v.k == K_IC)) {
                        int w = A1.cells[ci].sz * 8;
                        u.w = v.w = w;
                        if (!icmp(s, CmpInst::ICMP_EQ, u, v)) {
                            ret = mkI(1, 32);
                            return true;
                        }
                        i += A1.cells[ci].sz - 1;
                        continue;
                    }
                }
                AV u = load(s, x.obj, x.off + i, B), v = load(s, y.obj, y.off + i, B);
                if (u.k == K_UNDEF || v.k == K_UNDEF) {
                    fail(s, &in, "uninit", "comparison of uninitialised bytes");
                    return false;
                }
                if (!icmp(s, CmpInst::ICMP_EQ, u, v)) {
                    bool lt = icmp(s, CmpInst::ICMP_ULT, u, v);
                    ret = mkI(lt ? -1 : 1, 32);
                    return true;
                }
            }
            return true;
        }
        case M_STRLEN: {
            AV p = a[0];
            i64 n = 0;
            Type* B = Type::getInt8Ty(M->getContext());
            while (true) {
                AV q = p;
                if (q.k == K_PTR) q.off += n;
                if (!check(s, in, q, 1, false)) return false;
                AV v = load(s, q.obj, q.off, B);
                if (v.k == K_UNDEF) {
                    fail(s, &in, "uninit", "string scan reads uninitialised bytes");
                    return false;
                }
                if (v.k != K_IC) {
                    if (icmp(s, CmpInst::ICMP_EQ, v, mkI(0, 8))) break;
                } else if (!v.c)
                    break;
                n++;
            }
            ret = mkI(n, 64);
            return true;
        }
        case M_STRCMP: {
            std::string x = cstr(s, a[0]), y = cstr(s, a[1]);
            ret = mkI(x < y ? -1 : x > y ? 1 : 0, 32);
            return true;
        }
        case M_MEMCHR: {
            i64 n = concretize(s, a[2], false, "scan size");
            i64 c = concretize(s, a[1], false, "scan char") & 255;
            Type* B = Type::getInt8Ty(M->getContext());
            for (i64 i = 0; i < n; i++) {
                AV q = a[0];
                if (q.k == K_PTR) q.off += i;
                if (!check(s, in, q, 1, false)) return false;
                AV v = load(s, q.obj, q.off, B);
                if (v.k == K_UNDEF) {
                    fail(s, &in, "uninit", "scan reads uninitialised bytes");
                    return false;
                }
                if (icmp(s, CmpInst::ICMP_EQ, v, mkI(c, 8))) {
                    ret = q;
                    return true;
                }
            }
            ret = mkPtr(0, 0);
            return true;
        }
        case M_NOP: return true;
        case M_RET0: ret = mkI(0, in.tw ? in.tw : 32); return true;
        case M_ARG0: ret = a[0]; return true;
        case M_STREAM:
            if (in.I->getType()->isPointerTy()) ret = a[0];
            else if (in.I->getType()->isIntegerTy()) ret = mkTop(in.tw);
            return true;
        case M_EXIT: return pathEnd(s, &in, "the program is terminated (" + F->getName().str() + ")");
        case M_GUARD_ACQ: {
            AV p = a[0];
            if (!check(s, in, p, 1, false)) return false;
            AV v = load(s, p.obj, p.off, Type::getInt8Ty(M->getContext()));
            ret = mkI(v.k == K_IC && v.c ? 0 : 1, 32);
            return true;
        }
        case M_GUARD_REL: {
            AV p = a[0];
            if (!check(s, in, p, 1, true)) return false;
            store(s, p.obj, p.off, mkI(1, 8), Type::getInt8Ty(M->getContext()));
            return true;
        }
        case M_ALLOCEXC: {
            i64 n = concretize(s, a[0], false, "exception size");
            ret = mkPtr(newObj(s, n, true, "exception"), 0);
            return true;
        }
        case M_THROW:
            handled = false;
            if (!throwExc(s, &in, a[0], a[1])) return false;
            fr = &s.st.back();
            return true;
        case M_STDTHROW: {
            std::string n = F->getName().str();
            std::string ti = n.find("out_of_range") != std::string::npos ? "_ZTISt12out_of_range" : n.find("length_error") != std::string::npos ? "_ZTISt12length_error"
                             : n.find("invalid_argument") != std::string::npos ? "_ZTISt16invalid_argument" : n.find("bad_alloc") != std::string::npos ? "_ZTISt9bad_alloc"
                             : n.find("bad_cast") != std::string::npos ? "_ZTISt8bad_cast" : "_ZTISt11logic_error";
            u32 to = newObj(s, 64, true, ti);
            wobj(s, to).opaque = true;
            if (auto* g = M->getNamedGlobal(ti)) to = gobj[g];
            u32 o = newObj(s, 64, true, "exception");
            handled = false;
            if (!throwExc(s, &in, mkPtr(o, 0), mkPtr(to, 0))) return false;
            fr = &s.st.back();
            return true;
        }
        case M_RETHROW: {
            if (s.excStack.empty()) return pathEnd(s, &in, "rethrow without exception");
            Exc e = s.excStack.back();
            handled = false;
            if (!throwExc(s, &in, e.obj, e.type)) return false;
            fr = &s.st.back();
            return true;
        }
        case M_BEGINCATCH:
            s.excStack.push_back({s.curExc, s.curExcType});
            ret = a[0];
            return true;
        case M_ENDCATCH:
            if (!s.excStack.empty()) s.excStack.pop_back();
            return true;
        case M_TYPEID: ret = mkI(a[0].k == K_PTR ? a[0].obj : 0x7fffff, 32); return true;
        case M_FN1: {
            fname = F->getName().str();
            int fn = F_OPAQUE;
            auto has = [&](const char* x) { return fname.compare(0, strlen(x), x) == 0 || fname.find(std::string("llvm.") + x) == 0; };
            if (has("sin")) fn = F_SIN;
            else if (has("cos")) fn = F_COS;
            else if (has("tan")) fn = F_TAN;
            else if (has("sqrt")) fn = F_SQRT;
            else if (has("exp")) fn = F_EXP;
            else if (has("log")) fn = F_LOG;
            else if (has("atan2")) fn = F_ATAN2;
            else if (has("atan")) fn = F_ATAN;
            ret = fmath(s, fn, a[0], fn == F_ATAN2 ? a[1] : AV(), in.tw);
            return true;
        }
        case M_FLOOR: {
            fname = F->getName().str();
            int md = fname.find("floor") != std::string::npos ? 0 : fname.find("ceil") != std::string::npos ? 1 : fname.find("trunc") != std::string::npos ? 2 : 3;
            ret = ffloor(s, a[0], md);
            return true;
        }
        case M_HOST: {
            fname = F->getName().str();
            auto is = [&](const char* x) { return fname == x || fname == std::string(x) + "f" || fname == std::string(x) + "l"; };
            bool fl32 = a[0].w == 32, k = a[0].k == K_FC && (a.size() < 2 || a[1].k == K_FC);
            double x = a[0].d, y = a.size() > 1 ? a[1].d : 0;
            if (is("lrint") || is("llrint") || is("ilogb")) {
                if (k) ret = mkI((u64)(is("ilogb") ? (i64)ilogb(x) : (i64)llrint(x)), in.tw);
                else ret = mkTop(in.tw);
                return true;
            }
            if (!k) {
                AV q = mkF(M_LN2, in.tw), t = mkF(M_LN10, in.tw);
                if (is("log2")) ret = fbin(s, Instruction::FDiv, fmath(s, F_LOG, a[0], AV(), in.tw), q, in.tw);
                else if (is("log10")) ret = fbin(s, Instruction::FDiv, fmath(s, F_LOG, a[0], AV(), in.tw), t, in.tw);
                else if (is("exp2")) ret = fmath(s, F_EXP, fbin(s, Instruction::FMul, a[0], q, in.tw), AV(), in.tw);
                else ret = mkFTop(in.tw);
                return true;
            }
            double r = is("log2") ? log2(x) : is("log10") ? log10(x) : is("exp2") ? exp2(x) : is("expm1") ? expm1(x) : is("log1p") ? log1p(x) : is("cbrt") ? cbrt(x) :
                       is("asin") ? asin(x) : is("acos") ? acos(x) : is("sinh") ? sinh(x) : is("cosh") ? cosh(x) : is("tanh") ? tanh(x) :
                       is("rint") || is("nearbyint") ? rint(x) : is("logb") ? logb(x) : is("remainder") ? remainder(x, y) : is("fdim") ? fdim(x, y) :
                       fl32 ? (double)nextafterf((float)x, (float)y) : nextafter(x, y);
            ret = mkF(r, in.tw);
            return true;
        }
        case M_LROUND: ret = fpToInt(s, ffloor(s, a[0], 3), in.tw, true); return true;
        case M_FABS: ret = fabsv(s, a[0]); return true;
        case M_FMOD: ret = fbin(s, Instruction::FRem, a[0], a[1], in.tw); return true;
        case M_HYPOT: {
            AV q = fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, a[0], a[0], in.tw), fbin(s, Instruction::FMul, a[1], a[1], in.tw), in.tw);
            ret = fmath(s, F_SQRT, q, AV(), in.tw);
            return true;
        }
        case M_LDEXP: {
            i64 e = concretize(s, a[1], true, "ldexp exponent");
            ret = fbin(s, Instruction::FMul, a[0], mkF(ldexp(1, (int)e), 64), in.tw);
            return true;
        }
        case M_POW: {
            AV e = a[1];
            double ev;
            if (e.k == K_FC) ev = e.d;
            else if (e.k == K_IC) ev = (double)sx(e.c, e.w);
            else {
                ret = mkFTop(in.tw);
                return true;
            }
            if (a[0].k == K_FC) {
                ret = mkF(pow(a[0].d, ev), in.tw);
                return true;
            }
            if (ev == floor(ev) && fabs(ev) <= 40) {
                AV r = mkF(1, in.tw);
                for (int i = 0; i < (int)fabs(ev); i++) r = fbin(s, Instruction::FMul, r, a[0], in.tw);
                if (ev < 0) r = fbin(s, Instruction::FDiv, mkF(1, in.tw), r, in.tw);
                ret = r;
                return true;
            }
            if (ev == 0.5) {
                ret = fmath(s, F_SQRT, a[0], AV(), in.tw);
                return true;
            }
            ret = mkFTop(in.tw);
            return true;
        }
        case M_FMINMAX: {
            fname = F->getName().str();
            bool mx = fname.find("max") != std::string::npos;
            bool lt = fcmp(s, CmpInst::FCMP_OLT, a[0], a[1]);
            ret = (mx == lt) ? a[1] : a[0];
            return true;
        }
        case M_FMULADD: ret = fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, a[0], a[1], in.tw), a[2], in.tw); return true;
        case M_COPYSIGN: {
            AV x = fabsv(s, a[0]);
            bool neg = a[1].k == K_FC ? std::signbit(a[1].d) : fcmp(s, CmpInst::FCMP_OLT, a[1], mkF(0, in.tw));
            ret = neg ? fbin(s, Instruction::FSub, mkF(0, in.tw), x, in.tw) : x;
            return true;
        }
        case M_ISFINITE: ret = mkI(a[0].k == K_FC ? std::isfinite(a[0].d) : 1, in.tw); return true;
        case M_ISNANF: {
            if (a[0].k == K_FT) {
                ret = mkI(forceTop(s), in.tw);
                return true;
            }
            ret = mkI(a[0].k == K_FC ? std::isnan(a[0].d) : 0, in.tw);
            if (pre(F->getName().str(), "llvm.is.fpclass")) {
                i64 mask = concretize(s, a[1], false, "fpclass");
                bool v = false;
                if (a[0].k == K_FC) {
                    double d = a[0].d;
                    if (std::isnan(d)) v = mask & 3;
                    else if (std::isinf(d)) v = d < 0 ? mask & 4 : mask & 512;
                    else if (d == 0) v = mask & (32 | 64);
                    else v = d < 0 ? mask & (8 | 16) : mask & (128 | 256);
                } else
                    v = (mask & (8 | 16 | 32 | 64 | 128 | 256)) != 0;
                ret = mkI(v, 1);
            }
            return true;
        }
        case M_CTLZ:
        case M_CTTZ:
        case M_CTPOP: {
            std::vector<u32> b;
            if (!toBits(s, a[0], b)) {
                ret = mkTop(in.tw);
                return true;
            }
            int w = b.size();
            if (m == M_CTPOP) {
                int n = 0;
                for (u32 l : b) {
                    if (l > 1) {
                        ret = mkTop(in.tw);
                        return true;
                    }
                    n += l;
                }
                ret = mkI(n, in.tw);
                return true;
            }
            int n = 0;
            for (int i = 0; i < w; i++) {
                u32 l = m == M_CTLZ ? b[w - 1 - i] : b[i];
                if (l == 1) break;
                if (l == 0) {
                    n++;
                    continue;
                }
                if (l == 2) {
                    ret = mkTop(in.tw);
                    return true;
                }
                ForkReq r;
                for (int v = 0; v < 2; v++) {
                    Alt al;
                    al.k = A_BIT;
                    al.bit = l >> 1;
                    al.v = v;
                    r.alts.push_back(al);
                }
                throw r;
            }
            ret = mkI(n, in.tw);
            return true;
        }
        case M_MINMAX: {
            fname = F->getName().str();
            bool sg = fname[5] == 's', mx = fname.find("max") != std::string::npos;
            bool lt = icmp(s, sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, a[0], a[1]);
            ret = (mx == lt) ? a[1] : a[0];
            return true;
        }
        case M_ABS: {
            bool neg = icmp(s, CmpInst::ICMP_SLT, a[0], mkI(0, in.tw));
            if (!neg) ret = a[0];
            else {
                P p;
                if (a[0].k == K_IC) ret = mkI(0 - a[0].c, in.tw);
                else if (toPoly(s, a[0], p)) {
                    p = normS(s, p, in.tw);
                    ret = p ? mkIPoly(pNeg(p), in.tw) : mkTop(in.tw);
                } else
                    ret = mkTop(in.tw);
            }
            return true;
        }
        case M_OVF: {
            fname = F->getName().str();
            int w = a[0].w;
            if (a[0].k == K_IC && a[1].k == K_IC) {
                bool u = fname[5] == 'u';
                __int128 x = u ? (__int128)a[0].c : (__int128)sx(a[0].c, w), y = u ? (__int128)a[1].c : (__int128)sx(a[1].c, w);
                __int128 r = fname.find("mul") != std::string::npos ? x * y : fname.find("add") != std::string::npos ? x + y : x - y;
                bool o = u ? (r < 0 || r > (__int128)maskw(w)) : r != sx((u64)r, w);
                ret = mkAgg({mkI((u64)r, w), mkI(o, 1)});
            } else {
                P x, y;
                if (toPoly(s, a[0], x) && toPoly(s, a[1], y)) {
                    P r = fname.find("mul") != std::string::npos ? pMul(x, y) : fname.find("add") != std::string::npos ? pAdd(x, y) : pSub(x, y);
                    ret = mkAgg({mkIPoly(r, w), mkI(0, 1)});
                } else
                    ret = mkAgg({mkTop(w), mkI(0, 1)});
            }
            return true;
        }
        case M_OBJSIZE: ret = mkI(~0ull, in.tw); return true;
        case M_CLOCK: {
            // monotone symbolic clock; a specification that is not about time asks for a ticking one
            if (M->getFunction("va_clock_ticks")) {
                ret = mkI(1000 * (u64)s.clock++, 64);
                return true;
            }
            u32 sy = mkSym("clk" + std::to_string(s.clock++), true, 0, 1e15L);
            P p = pSym(sy);
            if (s.clock > 1) {
                u32 prev = mkSym("clk" + std::to_string(s.clock - 2), true, 0, 1e15L);
                s.f.add(pSub(p, pSym(prev)), FK_GE);
            }
            ret = mkIPoly(p, 64);
            return true;
        }
        case M_GETENV: {
            if (Function* G = M->getFunction("va_getenv")) {
                Frame nf;
                nf.f = fi(G);
                nf.regs.assign(nf.f->nregs, AV());
                nf.regs[0] = a[0];
                nf.retDst = in.dst;
                nf.unwind = in.op == Instruction::Invoke ? in.s1 : -1;
                nf.normal = in.op == Instruction::Invoke ? in.s0 : -1;
                s.st.push_back(std::move(nf));
                fr = &s.st.back();
                handled = false;
                return true;
            }
            ret = mkPtr(0, 0);
            return true;
        }
    }
    unmodelled[F->getName().str()]++;
    Type* T = in.I->getType();
    // what an unknown function writes through its arguments, or the object it returns, is unknown too
    for (u32 i = 0; i < a.size() && i < F->arg_size(); i++)
        if (F->getArg(i)->getType()->isPointerTy() && !F->getArg(i)->onlyReadsMemory() && !F->onlyReadsMemory()) throw KillPath{"unmodelled function " + F->getName().str(), true};
    if (!T->isVoidTy() && !T->isIntegerTy() && !T->isFloatingPointTy() && !T->isPointerTy()) throw KillPath{"unmodelled function " + F->getName().str(), true};
    if (T->isVoidTy()) return true;
    if (T->isIntegerTy()) ret = mkTop(in.tw);
    else if (T->isFloatingPointTy()) ret = mkFTop(in.tw);
    else {
        ret.k = K_PT;
        ret.w = 64;
    }
    return true;
}
