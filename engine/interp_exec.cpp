#include "interp.h"
#include "models.h"
#include "llvm/Demangle/Demangle.h"
#include <chrono>
using namespace llvm;

static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static double T0;

std::string Engine::locStr(State& s, Ins* in) {
    // innermost location inside the repository, else the spec location
    if (in && in->loc >= 0 && in->repo) return locs[in->loc];
    for (int i = (int)s.st.size() - 1; i >= 0; i--) {
        Frame& f = s.st[i];
        auto& v = f.f->bbs[f.bb].ins;
        int ip = std::min<int>(f.ip, (int)v.size() - 1);
        if (ip < 0) continue;
        if (v[ip].repo && v[ip].loc >= 0) return locs[v[ip].loc];
    }
    return in && in->loc >= 0 ? locs[in->loc] : "?";
}
void Engine::fail(State& s, Ins* in, const std::string& kind, const std::string& msg, const std::string& detail) {
    std::string site = locStr(s, in);
    std::string key = kind + "|" + msg + "|" + (kind == "assert" || kind == "near" ? "" : site);
    std::string okey = kind + ": " + msg;
    if (violKeys.count(key)) {
        return;
    }
    if (s.tainted) {
        undecided[okey + " (imprecise path)"]++;
        return;
    }
    Assign a;
    std::map<u32, bool> bits;
    bool w = findWitness(s.f, a, bits, 4000, [](Assign&, std::map<u32, bool>&) { return true; });
    if (!w) {
        undecided[okey + " @" + site]++;
        if (!undecidedSample.count(okey)) {
            std::string d;
            for (auto& fc : s.f.raw) d += pStr(fc.p) + (fc.k == FK_GE ? ">=0; " : fc.k == FK_GT ? ">0; " : fc.k == FK_EQ ? "==0; " : "!=0; ");
            undecidedSample[okey] = d;
        }
        return;
    }
    violKeys.insert(key);
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.site = site;
    if ((kind == "assert" || kind == "near") && !s.trail.empty() && !pathIn(site, repoRoot)) v.site = locs[s.trail.back()];
    v.detail = detail;
    for (int i = (int)s.st.size() - 1; i >= 0; i--) {
        Frame& f = s.st[i];
        auto& iv = f.f->bbs[f.bb].ins;
        int ip = std::min<int>(f.ip, (int)iv.size() - 1);
        std::string l = ip >= 0 && iv[ip].loc >= 0 ? locs[iv[ip].loc] : "?";
        v.stack.push_back(f.f->pretty + " at " + l);
        if (v.func.empty() && f.f->repo) v.func = f.f->pretty;
    }
    if (v.func.empty() && s.lastRepo) v.func = s.lastRepo->pretty;
    for (int t : s.trail)
        if (v.trail.empty() || v.trail.back() != locs[t]) v.trail.push_back(locs[t]);
    for (auto& x : a) {
        if (SY[x.first].kind != S_INPUT) continue;
        // only inputs used by this path
        char buf[128];
        snprintf(buf, sizeof buf, "%s=%.12Lg ", SY[x.first].name.c_str(), x.second);
        if (v.witness.size() < 1500) v.witness += buf;
    }
    if (!bits.empty()) {
        v.witness += " bits:";
        for (auto& b : bits)
            if (v.witness.size() < 2500) v.witness += " b" + std::to_string(b.first) + "=" + (b.second ? "1" : "0");
    }
    for (auto& c : s.choices) v.choices += std::to_string(c.second) + "@" + (c.first >= 0 ? locs[c.first].substr(locs[c.first].rfind('/') + 1) : "?") + " ";
    viols.push_back(v);
}
void Engine::gotoBB(Frame& fr, int bb) {
    fr.prev = fr.bb;
    fr.bb = bb;
    fr.ip = 0;
    BBInfo& b = fr.f->bbs[bb];
    if (!b.phi.empty()) {
        AV tmp[64];
        std::vector<AV> big;
        AV* t = tmp;
        size_t n = b.phi.size();
        if (n > 64) {
            big.resize(n);
            t = big.data();
        }
        for (size_t i = 0; i < n; i++)
            for (auto& pr : b.phi[i])
                if (pr.first == fr.prev) {
                    t[i] = op(fr, pr.second);
                    break;
                }
        for (size_t i = 0; i < n; i++) fr.regs[b.phiDst[i]] = t[i];
    }
}
std::string Engine::cstr(State& s, AV p) {
    std::string r;
    if (p.k != K_PTR || p.obj == 0 || !s.mem[p.obj]) return "?";
    const Obj& o = *s.mem[p.obj];
    for (i64 off = p.off; off < (i64)o.size; off++) {
        AV v = loadRaw(s, o, off, 1, 0, 8);
        if (v.k != K_IC || !v.c) break;
        r += (char)v.c;
    }
    return r;
}
bool Engine::pathEnd(State& s, Ins* in, const std::string& what) {
    if (s.exitMode == 0) fail(s, in, "terminates", what);
    else reach["exit"]++;
    return false;
}
bool Engine::typeMatch(State& s, AV thrown, AV clause) {
    if (clause.k == K_PTR && clause.obj == 0) return true;
    if (thrown.k != K_PTR || clause.k != K_PTR) return false;
    for (int d = 0; d < 8; d++) {
        if (thrown.obj == clause.obj) return true;
        const Obj& o = *s.mem[thrown.obj];
        if (o.opaque) {
            // library exception types: textual hierarchy
            std::string t = o.name, c = s.mem[clause.obj]->name;
            static const char* up[][2] = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
                                          {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
                                          {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
                                          {"_ZTISt8bad_cast", "_ZTISt9exception"}};
            for (int k = 0; k < 4; k++)
                for (auto& e : up)
                    if (t == e[0]) {
                        t = e[1];
                        if (t == c) return true;
                    }
            return false;
        }
        if (o.size < 24) return false;
        AV b = loadRaw(s, o, 16, 8, 1, 64);
        if (b.k != K_PTR || b.obj == 0) return false;
        thrown = b;
    }
    return false;
}
bool Engine::throwExc(State& s, Ins* in, AV obj, AV type) {
    s.curExc = obj;
    s.curExcType = type;
    int unw = (in && in->op == Instruction::Invoke) ? in->s1 : -1;
    while (true) {
        if (unw >= 0) {
            gotoBB(s.st.back(), unw);
            return true;
        }
        Frame f = std::move(s.st.back());
        if (s.st.size() == 1) {
            s.st.back() = std::move(f);
            if (s.exitMode == 0) fail(s, in, "throws", "an exception escapes");
            else reach["exit"]++;
            return false;
        }
        for (u32 a : f.allocas) s.mem[a] = nullptr;
        unw = f.unwind;
        s.st.pop_back();
    }
}
bool Engine::doCall(State& s, Frame*& fr, Ins& in) {
    Function* F = in.callee;
    std::vector<AV> args;
    size_t na = in.ops.size();
    if (!F) {
        AV fp = op(*fr, in.ops.back());
        na--;
        if (fp.k != K_FN) {
            if (fp.k == K_PTR && fp.obj == 0) {
                fail(s, &in, "null", "call through a null function pointer");
                return false;
            }
            throw KillPath{"call through an unknown function pointer", true};
        }
        F = fp.fn;
    }
    args.reserve(na);
    for (size_t i = 0; i < na; i++) args.push_back(op(*fr, in.ops[i]));
    int m;
    auto it = modelC.find(F);
    if (it == modelC.end()) {
        m = modelOf(F);
        modelC[F] = m;
    } else
        m = it->second;
    if (m != 0 || F->isDeclaration()) {
        AV ret;
        bool handled = true;
        size_t depth = s.st.size();
        bool cont = builtin(s, fr, in, m, args, ret, F, handled);
        if (!cont) return false;
        if (!handled) return true;  // control already transferred
        fr = &s.st.back();
        (void)depth;
        if (in.dst >= 0) fr->regs[in.dst] = ret;
        if (in.op == Instruction::Invoke) gotoBB(*fr, in.s0);
        else fr->ip++;
        return true;
    }
    if (s.st.size() > 2000) throw KillPath{"call depth", true};
    FI* f = fi(F);
    if (f->repo) fnSeen.insert(F), s.lastRepo = f;
    Frame nf;
    nf.f = f;
    nf.regs.assign(f->nregs, AV());
    size_t np = F->arg_size();
    for (size_t i = 0; i < np && i < args.size(); i++) {
        // byval aggregates: the callee owns a copy
        if (F->hasParamAttribute(i, Attribute::ByVal) && args[i].k == K_PTR) {
            u64 sz = DL->getTypeAllocSize(F->getParamByValType(i));
            AV p = args[i];
            if (!check(s, in, p, sz, false)) return false;
            u32 o = newObj(s, sz, false, "byval");
            copyMem(s, o, 0, p.obj, p.off, sz);
            nf.allocas.push_back(o);
            nf.regs[i] = mkPtr(o, 0);
        } else
            nf.regs[i] = args[i];
    }
    for (size_t i = np; i < args.size(); i++) nf.va.push_back(args[i]);
    nf.retDst = in.dst;
    nf.unwind = in.op == Instruction::Invoke ? in.s1 : -1;
    nf.normal = in.op == Instruction::Invoke ? in.s0 : -1;
    s.st.push_back(std::move(nf));
    fr = &s.st.back();
    return true;
}
bool Engine::exec(State& s, Frame*& fr, Ins& in) {
    switch (in.op) {
        case Instruction::Br: {
            if (in.ops.empty()) {
                gotoBB(*fr, in.s0);
                return true;
            }
            AV c = simp(s, op(*fr, in.ops[0]));
            if (c.k == K_UNDEF) {
                fail(s, &in, "uninit", "branch on an uninitialised value");
                return false;
            }
            bool v;
            if (c.k == K_IC) v = c.c;
            else v = !icmp(s, CmpInst::ICMP_EQ, c, mkI(0, c.w));
            if (in.repo) {
                if (s.trail.empty() || s.trail.back() != in.loc) {
                    if (s.trail.size() >= 60) s.trail.erase(s.trail.begin(), s.trail.begin() + 20);
                    s.trail.push_back(in.loc);
                }
            }
            gotoBB(*fr, v ? in.s0 : in.s1);
            return true;
        }
        case Instruction::Switch: {
            auto* SW = cast<SwitchInst>(in.I);
            AV c = op(*fr, in.ops[0]);
            if (c.k == K_UNDEF) {
                fail(s, &in, "uninit", "switch on an uninitialised value");
                return false;
            }
            u64 v = (u64)concretize(s, c, false, "switch") & maskw(c.w);
            BasicBlock* d = SW->getDefaultDest();
            for (auto& cs : SW->cases())
                if (cs.getCaseValue()->getZExtValue() == v) {
                    d = cs.getCaseSuccessor();
                    break;
                }
            for (size_t i = 0; i < fr->f->bbs.size(); i++)
                if (fr->f->bbs[i].bb == d) {
                    gotoBB(*fr, i);
                    return true;
                }
            return false;
        }
        case Instruction::Ret: {
            AV r;
            if (!in.ops.empty()) r = op(*fr, in.ops[0]);
            int dst = fr->retDst, normal = fr->normal;
            for (u32 a : fr->allocas)
                if (a < s.mem.size()) s.mem[a] = nullptr;
            while (s.mem.size() > initMem.size() && !s.mem.back()) s.mem.pop_back();
            s.st.pop_back();
            if (s.st.empty()) return false;
            fr = &s.st.back();
            if (dst >= 0) fr->regs[dst] = r;
            if (normal >= 0) gotoBB(*fr, normal);
            else fr->ip++;
            return true;
        }
        case Instruction::Unreachable:
            fail(s, &in, "unreachable", "control reaches undefined behaviour");
            return false;
        case Instruction::Call:
        case Instruction::Invoke: return doCall(s, fr, in);
        case Instruction::Resume: {
            AV o = s.curExc, t = s.curExcType;
            AV a = op(*fr, in.ops[0]);
            (void)a;
            if (!throwExc(s, &in, o, t)) return false;
            fr = &s.st.back();
            return true;
        }
        default: break;
    }
    AV r;
    auto A = [&](int i) { return op(*fr, in.ops[i]); };
    switch (in.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::And: case Instruction::Or: case Instruction::Xor:
            if (in.tw == 0 || in.tw > 64) {
                if (in.tw > 64) r = mkTop(64);
                else throw KillPath{"vector integer operation", true};
            } else
                r = binop(s, in, in.op, A(0), A(1), in.tw);
            break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            AV a = A(0), b = A(1);
            if (a.k == K_AGG && b.k == K_AGG) {
                std::vector<AV> v;
                int w = cast<VectorType>(in.I->getType())->getElementType()->isFloatTy() ? 32 : 64;
                for (size_t i = 0; i < a.ag->size(); i++) v.push_back(fbin(s, in.op, (*a.ag)[i], (*b.ag)[i], w));
                r = mkAgg(v);
            } else
                r = fbin(s, in.op, a, b, in.tw);
            break;
        }
        case Instruction::FNeg: {
            AV a = A(0);
            if (a.k == K_FB) {
                r = a;
                std::vector<u32> b = a.bv->b;
                u32 l = b.back();
                b.back() = l < 2 ? 1 - l : l == 2 ? 2 : l ^ 1;
                r.bv = internBits(b);
            } else if (a.k == K_FC) r = mkF(-a.d, in.tw), r.w = in.tw;
            else if (a.k == K_UNDEF) r = a;
            else r = fbin(s, Instruction::FSub, mkF(0, in.tw), a, in.tw);
            break;
        }
        case Instruction::ICmp: {
            AV a = A(0), b = A(1);
            if (a.k == K_UNDEF || b.k == K_UNDEF) {
                fail(s, &in, "uninit", "comparison uses an uninitialised value");
                return false;
            }
            r = mkI(icmp(s, cast<ICmpInst>(in.I)->getPredicate(), a, b), 1);
            break;
        }
        case Instruction::FCmp: {
            AV a = A(0), b = A(1);
            if (a.k == K_UNDEF || b.k == K_UNDEF) {
                fail(s, &in, "uninit", "comparison uses an uninitialised value");
                return false;
            }
            r = mkI(fcmp(s, cast<FCmpInst>(in.I)->getPredicate(), a, b), 1);
            break;
        }
        case Instruction::Select: {
            AV c = simp(s, A(0));
            if (c.k == K_UNDEF) {
                fail(s, &in, "uninit", "selection on an uninitialised value");
                return false;
            }
            bool v = c.k == K_IC ? c.c : !icmp(s, CmpInst::ICMP_EQ, c, mkI(0, c.w));
            r = v ? A(1) : A(2);
            break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: r = castInt(s, in.op, A(0), in.tw); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
            AV a = A(0);
            if (in.op == Instruction::BitCast && !in.I->getType()->isPointerTy()) r = bitcastTo(s, a, in.I->getType());
            else if (in.op == Instruction::IntToPtr) r = bitcastTo(s, a, in.I->getType());
            else r = a;
            break;
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            AV a = A(0);
            if (a.k == K_FC) {
                r = mkF(a.d, in.tw);
                if (in.tw == 80) r.w = 80;
            } else if (a.k == K_FP) r = a, r.w = in.tw;
            else if (a.k == K_UNDEF) r = a;
            else if (a.k == K_FB && a.bv->b.size() == 32) r = a, r.w = in.tw;  // a widened single keeps its pattern
            else {
                P p;
                r = toFP(s, a, p) ? mkFPoly(p, in.tw) : mkFTop(in.tw);
            }
            break;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: r = intToFp(s, A(0), in.tw, in.op == Instruction::SIToFP); break;
        case Instruction::FPToSI: case Instruction::FPToUI: r = fpToInt(s, A(0), in.tw, in.op == Instruction::FPToSI); break;
        case Instruction::Freeze: r = A(0); break;
        case Instruction::Alloca: {
            auto* AI = cast<AllocaInst>(in.I);
            u64 n = DL->getTypeAllocSize(AI->getAllocatedType());
            if (AI->isArrayAllocation()) n *= concretize(s, A(0), false, "alloca size");
            u32 o = newObj(s, n, false, AI->getName().str());
            fr->allocas.push_back(o);
            r = mkPtr(o, 0);
            break;
        }
        case Instruction::Load: {
            AV p = A(0);
            Type* T = in.I->getType();
            if (!check(s, in, p, DL->getTypeStoreSize(T), false)) return false;
            r = load(s, p.obj, p.off, T);
            break;
        }
        case Instruction::Store: {
            AV v = A(0), p = A(1);
            Type* T = in.I->getOperand(0)->getType();
            if (!check(s, in, p, DL->getTypeStoreSize(T), true)) return false;
            if (v.k == K_FB && T->isDoubleTy() && v.bv->b.size() == 32) {
                P q;
                v = toFP(s, v, q) ? mkFPoly(q, 64) : mkFTop(64);
            }
            store(s, p.obj, p.off, v, T);
            fr->ip++;
            return true;
        }
        case Instruction::GetElementPtr: {
            AV b = A(0);
            if (b.k == K_IC) b = mkPtr(0, b.c);
            if (b.k == K_UNDEF) {
                r = b;
                break;
            }
            if (b.k != K_PTR && b.k != K_PTRP) {
                r.k = K_PT;
                r.w = 64;
                break;
            }
            i64 co = in.gconst;
            P po = nullptr;
            bool top = false;
            for (auto& gv : in.gvar) {
                AV ix = simp(s, op(*fr, gv.first));
                if (ix.k == K_IC) co += gv.second * sx(ix.c, ix.w);
                else if (ix.k == K_UNDEF) {
                    fail(s, &in, "uninit", "index computed from an uninitialised value");
                    return false;
                } else {
                    P p;
                    if (ix.k == K_PTR || !toPoly(s, ix, p)) {
                        top = true;
                        break;
                    }
                    p = normS(s, p, ix.w);
                    if (!p) {
                        top = true;
                        break;
                    }
                    po = po ? pAdd(po, pScale(p, gv.second)) : pScale(p, gv.second);
                }
            }
            if (top) {
                r.k = K_PT;
                r.w = 64;
                break;
            }
            if (b.k == K_PTRP) po = po ? pAdd(po, b.p) : b.p;
            else co += b.off;
            if (po) {
                po = pAddC(po, co);
                if (po->isConst()) r = mkPtr(b.obj, (i64)po->cst());
                else {
                    r.k = K_PTRP;
                    r.w = 64;
                    r.obj = b.obj;
                    r.p = po;
                }
            } else
                r = mkPtr(b.obj, co);
            break;
        }
        case Instruction::ExtractValue: {
            AV a = A(0);
            for (unsigned ix : cast<ExtractValueInst>(in.I)->indices()) {
                if (a.k == K_AGG && ix < a.ag->size()) {
                    AV t = (*a.ag)[ix];
                    a = t;
                } else
                    a = AV();
            }
            r = a;
            break;
        }
        case Instruction::InsertValue: {
            AV a = A(0), v = A(1);
            auto ids = cast<InsertValueInst>(in.I)->getIndices();
            std::function<AV(AV, Type*, size_t)> rec = [&](AV cur, Type* T, size_t d) -> AV {
                if (d == ids.size()) return v;
                unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
                std::vector<AV> e = cur.k == K_AGG ? *cur.ag : std::vector<AV>(n);
                Type* E = T->isStructTy() ? T->getStructElementType(ids[d]) : T->getArrayElementType();
                e[ids[d]] = rec(e[ids[d]], E, d + 1);
                return mkAgg(e);
            };
            r = rec(a, in.I->getType(), 0);
            break;
        }
        case Instruction::ExtractElement: {
            AV a = A(0);
            i64 ix = concretize(s, A(1), false, "vector index");
            if (a.k == K_AGG && ix < (i64)a.ag->size()) r = (*a.ag)[ix];
            break;
        }
        case Instruction::InsertElement: {
            AV a = A(0);
            i64 ix = concretize(s, A(2), false, "vector index");
            unsigned n = cast<FixedVectorType>(in.I->getType())->getNumElements();
            std::vector<AV> e = a.k == K_AGG ? *a.ag : std::vector<AV>(n);
            if (ix < (i64)e.size()) e[ix] = A(1);
            r = mkAgg(e);
            break;
        }
        case Instruction::ShuffleVector: {
            auto* SV = cast<ShuffleVectorInst>(in.I);
            AV a = A(0), b = A(1);
            unsigned n = cast<FixedVectorType>(SV->getOperand(0)->getType())->getNumElements();
            std::vector<AV> e;
            for (int m : SV->getShuffleMask()) {
                AV x;
                if (m >= 0) {
                    AV& q = m < (int)n ? a : b;
                    unsigned k = m < (int)n ? m : m - n;
                    if (q.k == K_AGG) x = (*q.ag)[k];
                }
                e.push_back(x);
            }
            r = mkAgg(e);
            break;
        }
        case Instruction::LandingPad: {
            auto* LP = cast<LandingPadInst>(in.I);
            int sel = 0;
            for (unsigned i = 0; i < LP->getNumClauses(); i++) {
                if (!LP->isCatch(i)) continue;
                AV c = constant(LP->getClause(i));
                if (typeMatch(s, s.curExcType, c)) {
                    sel = c.obj ? (int)c.obj : 0x7fffff;
                    break;
                }
            }
            if (!sel && !LP->isCleanup()) {
                // no handler here: keep unwinding
                if (!throwExc(s, nullptr, s.curExc, s.curExcType)) return false;
                fr = &s.st.back();
                return true;
            }
            r = mkAgg({s.curExc, mkI(sel, 32)});
            break;
        }
        case Instruction::AtomicRMW: {
            auto* AR = cast<AtomicRMWInst>(in.I);
            AV p = A(0), v = A(1);
            Type* T = in.I->getType();
            if (!check(s, in, p, DL->getTypeStoreSize(T), true)) return false;
            r = load(s, p.obj, p.off, T);
            AV n = v;
            if (AR->getOperation() == AtomicRMWInst::Add) n = binop(s, in, Instruction::Add, r, v, in.tw);
            else if (AR->getOperation() == AtomicRMWInst::Sub) n = binop(s, in, Instruction::Sub, r, v, in.tw);
            store(s, p.obj, p.off, n, T);
            break;
        }
        case Instruction::Fence: fr->ip++; return true;
        default: throw KillPath{std::string("unsupported instruction ") + in.I->getOpcodeName(), true};
    }
    if (in.dst >= 0) fr->regs[in.dst] = r;
    fr->ip++;
    return true;
}
void Engine::explore(std::vector<State>& work, bool ctor) {
    while (!work.empty()) {
        State s = std::move(work.back());
        work.pop_back();
        states++;
        Frame* fr = &s.st.back();
        while (true) {
            if ((++steps & 0x3ff) == 0 && (steps > maxSteps || now() - T0 > maxSecs)) {
                budget = true;
                return;
            }
            Ins& in = fr->f->bbs[fr->bb].ins[fr->ip];
            if (++s.steps > maxPath) {
                fail(s, &in, "nontermination", "one abstract trace does not terminate within " + std::to_string(maxPath) + " steps");
                paths++;
                break;
            }
            if (in.repo) instSeen.insert(in.I);
            if (trace && in.loc >= 0) {
                std::string t;
                raw_string_ostream os(t);
                in.I->print(os);
                fprintf(stderr, "%s %s\n", locs[in.loc].c_str(), t.c_str());
            }
            bool cont = false;
            try {
                cont = exec(s, fr, in);
                if (trace && in.dst >= 0 && cont && !s.st.empty() && &s.st.back() == fr && in.dst < (int)fr->regs.size() && fr->regs[in.dst].k == K_IT) fprintf(stderr, "  -> TOP\n");
            } catch (ForkReq& r) {
                forks++;
                fr = &s.st.back();
                if (traceForks)
                    for (auto& a : r.alts) fprintf(stderr, "  FORK %d %s %s\n", a.k, a.p ? pStr(a.p).c_str() : "", locStr(s, &in).c_str());
                for (size_t i = r.alts.size(); i-- > 0;) {
                    Alt& a = r.alts[i];
                    State n = i == 0 ? std::move(s) : s;
                    bool okf = true;
                    switch (a.k) {
                        case A_GE: okf = n.f.add(a.p, FK_GE); break;
                        case A_GT: okf = n.f.add(a.p, FK_GT); break;
                        case A_EQ: okf = n.f.add(a.p, FK_EQ); break;
                        case A_NE: okf = n.f.add(a.p, FK_NE); break;
                        case A_BIT: okf = n.f.addBit(a.bit, a.v); break;
                        case A_FORCE:
                            n.forcedSet = true;
                            n.forced = a.v;
                            break;
                    }
                    if (a.taint) n.tainted = true;
                    if (okf && !n.f.bad) work.push_back(std::move(n));
                    else killedInfeasible++;
                }
                if (work.size() > maxStates) {
                    budget = true;
                    return;
                }
                break;
            } catch (KillPath& k) {
                if (k.imprecise) {
                    killed[k.why + " @" + locStr(s, &in)]++;
                    if (ctor) {}
                }
                paths++;
                break;
            }
            if (!cont) {
                paths++;
                break;
            }
        }
        if (viols.size() >= 20) return;
        if (!viols.empty()) {
            static time_t first = time(nullptr);
            if (time(nullptr) > first + 12) return;
        }
    }
}
bool Engine::runCtors(State& s) {
    auto* G = M->getNamedGlobal("llvm.global_ctors");
    if (!G || !G->hasInitializer()) return true;
    auto* CA = dyn_cast<ConstantArray>(G->getInitializer());
    if (!CA) return true;
    std::vector<std::pair<u64, Function*>> fs;
    for (auto& o : CA->operands()) {
        auto* cs = cast<ConstantStruct>(o);
        if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
    }
    std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& pf : fs) {
        Frame f;
        f.f = fi(pf.second);
        f.regs.assign(f.f->nregs, AV());
        s.st.clear();
        s.st.push_back(f);
        Frame* fr = &s.st.back();
        while (true) {
            steps++;
            Ins& in = fr->f->bbs[fr->bb].ins[fr->ip];
            try {
                if (!exec(s, fr, in)) break;
            } catch (ForkReq&) {
                killed["static initialiser forks @" + locStr(s, &in)]++;
                break;
            } catch (KillPath& k) {
                killed["static initialiser: " + k.why]++;
                break;
            }
        }
    }
    s.st.clear();
    return true;
}
bool Engine::runEntry(Function* F) {
    T0 = now();
    State s;
    s.mem = initMem;
    runCtors(s);
    initMem = s.mem;
    s = State();
    s.mem = initMem;
    Frame f;
    f.f = fi(F);
    f.regs.assign(f.f->nregs, AV());
    s.st.push_back(f);
    std::vector<State> work;
    work.push_back(std::move(s));
    explore(work, false);
    return true;
}
