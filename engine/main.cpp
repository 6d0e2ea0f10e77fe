#include "interp.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <cstdio>
using namespace llvm;
static std::string esc(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += c;
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r + "\"";
}
int main(int argc, char** argv) {
    std::vector<std::string> files;
    std::string entry, out;
    bool list = false;
    Engine E;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "--tier") E.tier = atoi(argv[++i]);
        else if (a == "--repo") E.repoRoot = argv[++i];
        else if (a == "--specs") E.specRoot = argv[++i];
        else if (a == "--secs") E.maxSecs = atof(argv[++i]), bnbDeadline = time(nullptr) + (time_t)E.maxSecs;
        else if (a == "--maxpath") E.maxPath = atoll(argv[++i]);
        else if (a == "--trace") E.trace = true;
        else if (a == "--forks") E.traceForks = true;
        else if (a == "--seed") rngState += 0x9E3779B97F4A7C15ull * atoi(argv[++i]);
        else files.push_back(a);
    }
    LLVMContext C;
    std::unique_ptr<Module> M;
    for (auto& f : files) {
        SMDiagnostic e;
        auto m = parseIRFile(f, e, C);
        if (!m) {
            e.print("roflai", errs());
            return 2;
        }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) return 2;
    }
    if (!M) return 2;
    if (list) {
        for (auto& F : *M)
            if (!F.isDeclaration() && F.getName().starts_with("spec_")) printf("%s\n", F.getName().str().c_str());
        return 0;
    }
    {
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CGAM;
        ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CGAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        FunctionPassManager FPM;
        FPM.addPass(PromotePass());
        ModulePassManager MPM;
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    E.M = M.get();
    E.DL = &M->getDataLayout();
    E.init();
    Function* F = M->getFunction(entry);
    if (!F || F->isDeclaration()) {
        fprintf(stderr, "no entry %s\n", entry.c_str());
        return 2;
    }
    E.runEntry(F);
    FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
    auto mp = [&](const char* name, const std::map<std::string, u64>& m) {
        fprintf(o, ",\n\"%s\":{", name);
        bool first = true;
        for (auto& x : m) {
            fprintf(o, "%s%s:%llu", first ? "" : ",", esc(x.first).c_str(), (unsigned long long)x.second);
            first = false;
        }
        fprintf(o, "}");
    };
    fprintf(o, "{\"entry\":%s,\"steps\":%llu,\"states\":%llu,\"paths\":%llu,\"forks\":%llu,\"infeasible\":%llu,\"budget\":%s", esc(entry).c_str(), (unsigned long long)E.steps,
            (unsigned long long)E.states, (unsigned long long)E.paths, (unsigned long long)E.forks, (unsigned long long)E.killedInfeasible, E.budget ? "true" : "false");
    mp("proved", E.proved);
    mp("undecided", E.undecided);
    mp("unmodelled", E.unmodelled);
    mp("killed", E.killed);
    mp("reach", E.reach);
    fprintf(o, ",\n\"undecided_sample\":{");
    bool first = true;
    for (auto& x : E.undecidedSample) {
        fprintf(o, "%s%s:%s", first ? "" : ",", esc(x.first).c_str(), esc(x.second).c_str());
        first = false;
    }
    fprintf(o, "},\n\"functions\":[");
    first = true;
    for (auto* f : E.fnSeen) {
        u64 tot = 0, seen = 0;
        for (auto& B : *f)
            for (auto& I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                tot++;
                if (E.instSeen.count(&I)) seen++;
            }
        fprintf(o, "%s{\"f\":%s,\"n\":%llu,\"seen\":%llu}", first ? "" : ",\n", esc(demangle(f->getName().str())).c_str(), (unsigned long long)tot, (unsigned long long)seen);
        first = false;
    }
    fprintf(o, "],\n\"violations\":[");
    first = true;
    for (auto& v : E.viols) {
        fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"site\":%s,\"func\":%s,\"detail\":%s,\"witness\":%s,\"choices\":%s,\"stack\":[", first ? "" : ",\n", esc(v.kind).c_str(),
                esc(v.msg).c_str(), esc(v.site).c_str(), esc(v.func).c_str(), esc(v.detail).c_str(), esc(v.witness).c_str(), esc(v.choices).c_str());
        for (size_t i = 0; i < v.stack.size() && i < 40; i++) fprintf(o, "%s%s", i ? "," : "", esc(v.stack[i]).c_str());
        fprintf(o, "],\"trail\":[");
        for (size_t i = 0; i < v.trail.size(); i++) fprintf(o, "%s%s", i ? "," : "", esc(v.trail[i]).c_str());
        fprintf(o, "]}");
        first = false;
    }
    fprintf(o, "]}\n");
    if (!out.empty()) fclose(o);
    return 0;
}
