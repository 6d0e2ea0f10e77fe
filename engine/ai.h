// roflai: partitioned abstract interpreter over LLVM IR.
#pragma once
#include "facts.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"

enum Kind : uint8_t {
    K_UNDEF, K_IC, K_IB, K_IP, K_IT,      // ints: const, bit vector, polynomial, top
    K_PTR, K_PTRP, K_PT, K_FN,            // pointers: obj+const, obj+poly, top, function
    K_FC, K_FP, K_FB, K_FT,               // floats: const, polynomial, bit pattern, top
    K_AGG, K_ZERO, K_PACK                 // K_PACK: integer register holding several unrelated memory cells (ABI coercion)
};
struct AV {
    uint8_t k = K_UNDEF;
    uint8_t w = 0;  // bit width for ints and floats (32/64/80)
    uint16_t fl = 0;
    u32 obj = 0;
    union {
        u64 c;
        double d;
        P p;
        const BitVec* bv;
        llvm::Function* fn;
        const std::vector<AV>* ag;
        i64 off;
    };
    AV() : c(0) {}
};
inline bool operator==(const AV& a, const AV& b) { return a.k == b.k && a.w == b.w && a.obj == b.obj && a.c == b.c; }

inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline AV mkI(u64 v, int w) {
    AV a;
    a.k = K_IC;
    a.w = w;
    a.c = v & maskw(w);
    return a;
}
inline AV mkTop(int w) {
    AV a;
    a.k = K_IT;
    a.w = w;
    return a;
}
inline AV mkF(double v, int w) {
    AV a;
    a.k = K_FC;
    a.w = w;
    a.d = w == 32 ? (double)(float)v : v;
    return a;
}
inline AV mkFTop(int w) {
    AV a;
    a.k = K_FT;
    a.w = w;
    return a;
}
inline AV mkPtr(u32 obj, i64 off) {
    AV a;
    a.k = K_PTR;
    a.w = 64;
    a.obj = obj;
    a.off = off;
    return a;
}
inline AV mkFn(llvm::Function* f) {
    AV a;
    a.k = K_FN;
    a.w = 64;
    a.fn = f;
    return a;
}
inline i64 sx(u64 v, int w) {
    if (w >= 64) return (i64)v;
    v &= (1ull << w) - 1;
    u64 m = 1ull << (w - 1);
    return (i64)((v ^ m) - m);
}
const BitVec* internBits(const std::vector<u32>& b);
AV mkBits(const std::vector<u32>& b);
AV mkIPoly(P p, int w);
AV mkFPoly(P p, int w);
AV mkAgg(const std::vector<AV>& v);

struct Cell {
    u32 off, sz;
    AV v;
};
struct Obj {
    u64 size = 0;
    bool freed = false;
    bool heap = false;
    bool opaque = false;
    bool readonly = false;
    std::string name;
    std::vector<Cell> cells;
    size_t lb(u32 off) const {  // first cell with off+sz > off
        size_t lo = 0, hi = cells.size();
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (cells[m].off + cells[m].sz > off) hi = m;
            else lo = m + 1;
        }
        return lo;
    }
};

struct OpRef {
    int slot;  // >=0 register, else constant index -(slot+1)
};
struct Ins {
    llvm::Instruction* I;
    unsigned op;
    int dst;
    std::vector<int> ops;
    int tw = 0;      // result bit width / type code
    int loc = -1;    // debug location id
    bool repo = false;
    // gep
    i64 gconst = 0;
    std::vector<std::pair<int, i64>> gvar;  // (operand ref, scale)
    // branch
    int s0 = -1, s1 = -1;
    llvm::Function* callee = nullptr;
    int model = 0;   // builtin model id
    u64 extra = 0;
};
struct FI;
struct BBInfo {
    std::vector<Ins> ins;
    llvm::BasicBlock* bb;
    int nphi = 0;
    std::vector<std::vector<std::pair<int, int>>> phi;  // per phi: (pred bb, operand ref)
    std::vector<int> phiDst;
};
struct FI {
    llvm::Function* F;
    int nregs = 0;
    std::vector<BBInfo> bbs;
    std::vector<AV> consts;
    bool repo = false, spec = false;
    std::string pretty;
};
struct Frame {
    FI* f;
    int bb = 0, ip = 0, prev = -1;
    std::vector<AV> regs;
    std::vector<u32> allocas;
    int retDst = -1;
    int unwind = -1, normal = -1;  // for invoke
    std::vector<AV> va;
};
struct Exc {
    AV obj, type;
};
struct State {
    std::vector<Frame> st;
    std::vector<std::shared_ptr<Obj>> mem;
    Facts f;
    bool tainted = false;
    bool forcedSet = false;
    i64 forced = 0;
    u32 nsym = 0;
    int exitMode = 0;
    u64 steps = 0;
    std::vector<std::pair<int, i64>> choices;  // (loc, value)
    std::vector<int> trail;                     // recent repo branch locations
    std::vector<Exc> excStack;
    AV curExc, curExcType;
    u64 clock = 0;
    FI* lastRepo = nullptr;
};
enum AltKind { A_GE, A_GT, A_EQ, A_NE, A_BIT, A_FORCE };
struct Alt {
    AltKind k;
    P p = nullptr;
    u32 bit = 0;
    i64 v = 0;
    bool taint = false;
};
struct ForkReq {
    std::vector<Alt> alts;
};
struct KillPath {
    std::string why;
    bool imprecise;
};
