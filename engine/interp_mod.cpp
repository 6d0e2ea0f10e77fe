#include "interp.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
using namespace llvm;

static std::string diPath(const DIScope* sc) {
    if (!sc) return "";
    const DIFile* f = sc->getFile();
    if (!f) return "";
    std::string fn = f->getFilename().str();
    if (!fn.empty() && fn[0] != '/') fn = f->getDirectory().str() + "/" + fn;
    return fn;
}
AV Engine::constant(const Constant* C) {
    if (auto* CI = dyn_cast<ConstantInt>(C)) {
        if (CI->getBitWidth() > 64) return mkI(CI->getValue().trunc(64).getZExtValue(), 64);
        return mkI(CI->getZExtValue(), CI->getBitWidth());
    }
    if (auto* CF = dyn_cast<ConstantFP>(C)) {
        APFloat f = CF->getValueAPF();
        bool li;
        int w = C->getType()->isFloatTy() ? 32 : C->getType()->isDoubleTy() ? 64 : 80;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        AV a = mkF(f.convertToDouble(), 64);
        a.w = w;
        return a;
    }
    if (isa<ConstantPointerNull>(C)) return mkPtr(0, 0);
    if (isa<UndefValue>(C)) return AV();
    if (auto* F = dyn_cast<Function>(C)) return mkFn(const_cast<Function*>(F));
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constant(A->getAliasee());
    if (auto* G = dyn_cast<GlobalVariable>(C)) return mkPtr(gobj.lookup(G), 0);
    if (isa<ConstantAggregateZero>(C) || isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) {
        std::vector<AV> v;
        Type* T = C->getType();
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(constant(C->getAggregateElement(i)));
        return mkAgg(v);
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
            case Instruction::GetElementPtr: {
                AV b = constant(CE->getOperand(0));
                APInt off(64, 0);
                if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off) && b.k == K_PTR) {
                    b.off += off.getSExtValue();
                    return b;
                }
                break;
            }
            case Instruction::BitCast:
            case Instruction::IntToPtr:
            case Instruction::PtrToInt:
            case Instruction::AddrSpaceCast: return constant(CE->getOperand(0));
            case Instruction::Sub: {
                AV a = constant(CE->getOperand(0)), b = constant(CE->getOperand(1));
                if (a.k == K_IC && b.k == K_IC) return mkI(a.c - b.c, a.w);
                break;
            }
        }
    }
    AV r;
    r.k = K_PT;
    return r;
}
void Engine::storeConst(Obj& o, u64 off, const Constant* C) {
    Type* T = C->getType();
    if (isa<UndefValue>(C)) return;
    if (isa<ConstantAggregateZero>(C) || C->isNullValue()) {
        AV z;
        z.k = K_ZERO;
        u64 sz = DL->getTypeAllocSize(T);
        if (sz) writeCell(o, off, sz, z);
        return;
    }
    if (auto* ST = dyn_cast<StructType>(T)) {
        auto* SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) storeConst(o, off + SL->getElementOffset(i), C->getAggregateElement(i));
        return;
    }
    if (T->isArrayTy() || T->isVectorTy()) {
        Type* E = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
        u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        u64 es = DL->getTypeAllocSize(E);
        for (u64 i = 0; i < n; i++) storeConst(o, off + i * es, C->getAggregateElement(i));
        return;
    }
    writeCell(o, off, DL->getTypeStoreSize(T), constant(C));
}
void Engine::init() {
    initMem.push_back(nullptr);
    for (auto& G : M->globals()) {
        auto o = std::make_shared<Obj>();
        o->name = G.getName().str();
        if (G.isDeclaration()) {
            o->opaque = true;
            o->size = 1 << 20;
        } else
            o->size = DL->getTypeAllocSize(G.getValueType());
        gobj[&G] = initMem.size();
        initMem.push_back(o);
    }
    for (auto& G : M->globals())
        if (G.hasInitializer()) storeConst(*initMem[gobj[&G]], 0, G.getInitializer());
    // the runtime library's typeinfo objects of fundamental types: a vtable word and the name
    for (auto& G : M->globals()) {
        std::string n = G.getName().str();
        if (!G.isDeclaration() || n.compare(0, 4, "_ZTI") || n.size() > 7 || n.size() < 5 || n[4] < 'P' || n[4] == 'S') continue;
        auto t = std::make_shared<Obj>();
        t->name = "type name " + n.substr(4);
        t->size = n.size() - 4 + 1;
        for (u64 i = 0; i < t->size; i++) writeCell(*t, i, 1, mkI(i + 4 < n.size() ? (unsigned char)n[i + 4] : 0, 8));
        int id = initMem.size();
        initMem.push_back(t);
        Obj& o = *initMem[gobj[&G]];
        o.opaque = false;
        o.size = 16;
        writeCell(o, 0, 8, mkI(1, 64));
        writeCell(o, 8, 8, mkPtr(id, 0));
    }
}
FI* Engine::fi(Function* F) {
    auto it = fis.find(F);
    if (it != fis.end()) return it->second;
    FI* f = new FI;
    fis[F] = f;
    f->F = F;
    f->pretty = demangle(F->getName().str());
    if (auto* sp = F->getSubprogram()) {
        std::string p = diPath(sp);
        f->repo = pathIn(p, repoRoot);
        f->spec = pathIn(p, specRoot);
    }
    DenseMap<const Value*, int> slot;
    int n = 0;
    for (auto& A : F->args()) slot[&A] = n++;
    DenseMap<const BasicBlock*, int> bbi;
    int k = 0;
    for (auto& B : *F) {
        bbi[&B] = k++;
        for (auto& I : B)
            if (!I.getType()->isVoidTy()) slot[&I] = n++;
    }
    f->nregs = n;
    std::map<const Value*, int> cidx;
    auto ref = [&](const Value* V) -> int {
        auto q = slot.find(V);
        if (q != slot.end()) return q->second;
        auto c = cidx.find(V);
        if (c != cidx.end()) return c->second;
        AV a;
        if (auto* C = dyn_cast<Constant>(V)) a = constant(C);
        f->consts.push_back(a);
        int r = -(int)f->consts.size();
        cidx[V] = r;
        return r;
    };
    for (auto& B : *F) {
        f->bbs.emplace_back();
        BBInfo& bi = f->bbs.back();
        bi.bb = &B;
        for (auto& I : B) {
            if (auto* PN = dyn_cast<PHINode>(&I)) {
                std::vector<std::pair<int, int>> v;
                for (unsigned i = 0; i < PN->getNumIncomingValues(); i++) v.push_back({bbi[PN->getIncomingBlock(i)], ref(PN->getIncomingValue(i))});
                bi.phi.push_back(v);
                bi.phiDst.push_back(slot[&I]);
                continue;
            }
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Ins in;
            in.I = &I;
            in.op = I.getOpcode();
            in.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
            if (I.getType()->isIntegerTy()) in.tw = I.getType()->getIntegerBitWidth();
            else if (I.getType()->isFloatTy()) in.tw = 32;
            else if (I.getType()->isDoubleTy()) in.tw = 64;
            else if (I.getType()->isFloatingPointTy()) in.tw = 80;
            else if (I.getType()->isPointerTy()) in.tw = 64;
            if (auto& D = I.getDebugLoc()) {
                std::string p = diPath(cast<DIScope>(D.getScope()));
                in.repo = pathIn(p, repoRoot);
                std::string key = p + ":" + std::to_string(D.getLine());
                auto q = locIdx.find(key);
                if (q == locIdx.end()) {
                    in.loc = locs.size();
                    locs.push_back(key);
                    locIdx[key] = in.loc;
                } else
                    in.loc = q->second;
            }
            if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                in.ops.push_back(ref(G->getPointerOperand()));
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                    Value* ix = gi.getOperand();
                    if (StructType* ST = gi.getStructTypeOrNull()) {
                        in.gconst += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        i64 es = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto* CI = dyn_cast<ConstantInt>(ix)) in.gconst += es * CI->getSExtValue();
                        else in.gvar.push_back({ref(ix), es});
                    }
                }
            } else if (auto* CB = dyn_cast<CallBase>(&I)) {
                for (auto& a : CB->args()) {
                    if (a->getType()->isMetadataTy()) in.ops.push_back(ref(UndefValue::get(Type::getInt32Ty(M->getContext()))));
                    else in.ops.push_back(ref(a));
                }
                Value* cv = CB->getCalledOperand()->stripPointerCasts();
                if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
                in.callee = dyn_cast<Function>(cv);
                if (!in.callee) in.ops.push_back(ref(CB->getCalledOperand()));
                if (auto* IV = dyn_cast<InvokeInst>(&I)) {
                    in.s0 = bbi[IV->getNormalDest()];
                    in.s1 = bbi[IV->getUnwindDest()];
                }
            } else if (auto* BR = dyn_cast<BranchInst>(&I)) {
                if (BR->isConditional()) {
                    in.ops.push_back(ref(BR->getCondition()));
                    in.s0 = bbi[BR->getSuccessor(0)];
                    in.s1 = bbi[BR->getSuccessor(1)];
                } else
                    in.s0 = bbi[BR->getSuccessor(0)];
            } else if (auto* SW = dyn_cast<SwitchInst>(&I)) {
                in.ops.push_back(ref(SW->getCondition()));
                in.s0 = bbi[SW->getDefaultDest()];
            } else {
                for (auto& o : I.operands()) in.ops.push_back(isa<BasicBlock>(o) ? 0 : ref(o));
            }
            bi.ins.push_back(in);
        }
    }
    return f;
}
