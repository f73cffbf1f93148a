// symx: symbolic execution of LLVM IR with symbolic schedules.
//   symx prep IN.bc OUT.bc [-novis=REGEX]...       apply overrides, instrument atomics
//   symx mem IN.bc OUT.bc                          instrument plain accesses to shared memory
//   symx run IN.bc -out=PREFIX [options]           explore
//   symx selftest
#include "exec.h"
#include "prep.h"
#include <chrono>
#include <cstdio>
#include <fstream>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/resource.h>

static std::string js(const std::string &s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r + "\"";
}
template <class C> static std::string jlist(const C &c)
{
    std::string r = "[";
    bool f = true;
    for (auto &x : c) { if (!f) r += ", "; f = false; r += js(x); }
    return r + "]";
}
int main(int argc, char **argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "selftest") {
        for (int s = 0; s < 10; s++) if (exprSelfTest(s, 300)) return 1;
        puts("selftest ok");
        return 0;
    }
    if (argc < 3) { fprintf(stderr, "usage: symx prep|mem|run|selftest ...\n"); return 2; }
    auto c0 = std::chrono::steady_clock::now();
    llvm::LLVMContext ctx;
    llvm::SMDiagnostic err;
    auto M = llvm::parseIRFile(argv[2], err, ctx);
    if (!M) { err.print("symx", llvm::errs()); return 2; }
    if (mode == "prep" || mode == "mem") {
        std::vector<std::string> novis;
        bool nostores = false;
        for (int i = 4; i < argc; i++) {
            std::string a = argv[i];
            if (a.rfind("-novis=", 0) == 0) novis.push_back(a.substr(7));
            else if (a == "-nostores") nostores = true;
            else return 2;
        }
        return mode == "prep" ? prepModule(*M, argv[3], novis, nostores) : memModule(*M, argv[3]);
    }
    if (mode != "run") return 2;
    Options o;
    for (int i = 3; i < argc; i++) {
        std::string a = argv[i];
        auto eq = a.find('=');
        std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
        if (k == "-out") o.out = v;
        else if (k == "-steps") o.maxSteps = std::stoi(v);
        else if (k == "-yields") o.yieldBudget = std::stoi(v);
        else if (k == "-preempt") o.maxPreempt = std::stoi(v);
        else if (k == "-timeout") o.timeout = std::stod(v);
        else if (k == "-witnesses") o.witnesses = std::stoi(v);
        else if (k == "-segmax") o.maxSegInstr = std::stoull(v);
        else if (k == "-maxviol") o.maxViolations = std::stoi(v);
        else if (k == "-nolivelock") o.livelockIsViolation = false;
        else if (k == "-qtimeout") gQueryTimeoutMs = std::stoi(v);
        else if (k == "-dump") gDumpDir = v;
        else if (k == "-dumpevery") gDumpEvery = std::stoi(v);
        else if (k == "-bfs") o.bfs = true;
        else if (k == "-shape") o.shape = true;
        else if (k == "-v") o.verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    Exec ex(*M, o);
    ex.run();
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - c0).count();
    std::ofstream f(o.out + ".json");
    f << "{\n \"complete\": " << (ex.complete ? "true" : "false") << ",\n \"why\": " << js(ex.incompleteWhy) << ",\n \"violations\": [";
    for (size_t i = 0; i < ex.violations.size(); i++) {
        auto &v = ex.violations[i];
        f << (i ? ", " : "") << "{\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"where\": " << js(v.where) << ", \"trace\": " << js(v.trace) << "}";
    }
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    std::set<std::string> missing;
    for (auto &r : ex.reachDeclared) if (!ex.reached.count(r)) missing.insert(r);
    f << "],\n \"wall\": " << wall << ",\n \"instructions\": " << ex.nInstr << ",\n \"states\": " << ex.nStates << ",\n \"transitions\": " << ex.nTransitions
      << ",\n \"segments\": " << ex.nSegments << ",\n \"merges\": " << ex.nMerges << ",\n \"forks\": " << ex.nForks << ",\n \"terminals\": " << ex.nTerminal
      << ",\n \"depth\": " << ex.depth << ",\n \"max_frontier\": " << ex.maxFrontier << ",\n \"asserts\": " << ex.nAsserts << ",\n \"queries\": " << gSolver.queries
      << ",\n \"z3_calls\": " << gSolver.z3calls << ",\n \"model_hits\": " << gSolver.modelHits << ",\n \"trivial\": " << gSolver.trivial << ",\n \"sat\": " << gSolver.sat << ",\n \"unsat\": " << gSolver.unsat
      << ",\n \"unknown\": " << gSolver.unknown << ",\n \"solver_s\": " << gSolver.seconds << ",\n \"max_query_s\": " << gSolver.maxQuery << ",\n \"exprs\": " << exprCount()
      << ",\n \"maxrss_mb\": " << ru.ru_maxrss / 1024 << ",\n \"reached\": " << jlist(ex.reached) << ",\n \"unreached\": " << jlist(missing)
      << ",\n \"assertions\": " << jlist(ex.assertMsgs) << ",\n \"witnesses\": " << jlist(ex.witnessFiles) << ",\n \"functions\": " << jlist(ex.functionsEncoded) << "\n}\n";
    f.close();
    int rc = !ex.violations.empty() ? 1 : ex.complete ? 0 : 2;
    if (rc == 2) fprintf(stderr, "inconclusive: %s\n", ex.incompleteWhy.c_str());
    fflush(stderr);
    _Exit(rc);
}
