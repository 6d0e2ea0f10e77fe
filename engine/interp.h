#pragma once
#include "ai.h"
struct Violation {
    std::string kind, msg, site, func;
    std::vector<std::string> trail;
    std::string witness, choices, detail;
    std::vector<std::string> stack;
};
struct Engine {
    llvm::Module* M;
    const llvm::DataLayout* DL;
    std::string repoRoot = "/repo", specRoot = "/verif/specs";
    int tier = 0;
    u64 maxSteps = 2000000000ull, maxStates = 5000000;
    double maxSecs = 800;
    u64 maxPath = 3000000;
    bool trace = false, traceForks = false;
    // results
    u64 steps = 0, states = 0, killedInfeasible = 0, forks = 0, paths = 0;
    std::map<std::string, u64> proved, undecided;
    std::map<std::string, std::string> undecidedSample;
    std::vector<Violation> viols;
    std::set<std::string> violKeys;
    std::map<std::string, u64> unmodelled;
    std::map<std::string, u64> reach;
    std::set<llvm::Function*> fnSeen;
    std::set<const llvm::Instruction*> instSeen;
    std::map<std::string, u64> killed;
    bool budget = false;
    // module data
    std::map<llvm::Function*, FI*> fis;
    llvm::DenseMap<const llvm::GlobalVariable*, u32> gobj;
    std::vector<std::shared_ptr<Obj>> initMem;
    std::vector<std::string> locs;
    std::map<std::string, int> locIdx;
    std::vector<char> locRepo;
    std::map<llvm::Function*, int> modelC;

    void init();
    FI* fi(llvm::Function* F);
    bool pathIn(const std::string& p, const std::string& root) { return p.compare(0, root.size(), root) == 0; }
    AV constant(const llvm::Constant* C);
    void storeConst(Obj& o, u64 off, const llvm::Constant* C);
    int modelOf(llvm::Function* F);
    bool runEntry(llvm::Function* F);
    bool runCtors(State& s);
    void explore(std::vector<State>& work, bool ctor);
    void step(State& s, std::vector<State>& work, bool& ended);
    bool exec(State& s, Frame*& fr, Ins& in);  // returns false if path ended
    bool doCall(State& s, Frame*& fr, Ins& in);
    bool builtin(State& s, Frame*& fr, Ins& in, int model, std::vector<AV>& args, AV& ret, llvm::Function* F, bool& handled);
    void gotoBB(Frame& fr, int bb);
    AV op(Frame& fr, int r) { return r >= 0 ? fr.regs[r] : fr.f->consts[-r - 1]; }
    // failures
    void fail(State& s, Ins* in, const std::string& kind, const std::string& msg, const std::string& detail = "");
    void ok(const std::string& key) { proved[key]++; }
    std::string locStr(State& s, Ins* in);
    // ints
    bool toBits(State& s, AV v, std::vector<u32>& out);
    bool toPoly(State& s, AV v, P& out);
    AV simp(State& s, AV v);
    P normRange(State& s, P p, LD lo, LD hi, Q mod);
    P normU(State& s, P p, int w);
    P normS(State& s, P p, int w);
    AV binop(State& s, Ins& in, unsigned opc, AV a, AV b, int w);
    bool icmp(State& s, llvm::CmpInst::Predicate pr, AV a, AV b);
    int cmpBits(State& s, const std::vector<u32>& a, const std::vector<u32>& b);
    bool divRule(State& s, P p, P d, P& q, P& r);
    bool decGE(State& s, P p, bool strict);
    bool decEQ(State& s, P p);
    bool forceTop(State& s);
    AV castInt(State& s, unsigned opc, AV v, int w);
    i64 concretize(State& s, AV v, bool sgn, const char* what);
    // floats
    bool toFP(State& s, AV v, P& out);
    AV fbin(State& s, unsigned opc, AV a, AV b, int w);
    bool fcmp(State& s, llvm::CmpInst::Predicate pr, AV a, AV b);
    AV ffloor(State& s, AV v, int mode);  // 0 floor 1 ceil 2 trunc 3 round
    AV fmath(State& s, int fn, AV a, AV b, int w);
    AV fpToInt(State& s, AV v, int w, bool sgn);
    AV intToFp(State& s, AV v, int w, bool sgn);
    AV fabsv(State& s, AV v);
    AV bitcastTo(State& s, AV v, llvm::Type* T);
    // memory
    u32 newObj(State& s, u64 size, bool heap, const std::string& name);
    Obj& wobj(State& s, u32 id);
    bool check(State& s, Ins& in, AV& ptr, u64 size, bool write);  // resolves ptr to const; false => path ended
    AV load(State& s, u32 obj, i64 off, llvm::Type* T);
    AV loadRaw(State& s, const Obj& o, u32 off, u32 sz, int cls, int w);
    void store(State& s, u32 obj, i64 off, AV v, llvm::Type* T);
    void writeCell(Obj& o, u32 off, u32 sz, AV v);
    void eraseRange(Obj& o, u32 off, u32 sz);
    void copyMem(State& s, u32 dobj, i64 doff, u32 sobj, i64 soff, u64 n);
    bool throwExc(State& s, Ins* in, AV obj, AV type);
    bool typeMatch(State& s, AV thrown, AV clause);
    std::string cstr(State& s, AV p);
    bool pathEnd(State& s, Ins* in, const std::string& what);
};
