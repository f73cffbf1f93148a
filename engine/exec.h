#pragma once
#include "state.h"
#include <functional>
#include <list>
#include <set>
#include <unordered_map>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

struct Opd {
    int slot = -1;
    V c;
    const llvm::GlobalVariable *tls = nullptr;
};
struct DI { // decoded instruction
    llvm::Instruction *I = nullptr;
    unsigned op = 0;
    int dst = -1;
    unsigned w = 0; // result width for integers and pointers
    std::vector<Opd> ops;
    uint64_t gepConst = 0;
    std::vector<std::pair<Opd, uint64_t>> gepVar;
    std::vector<int> live; // live slots after this call
    llvm::Function *callee = nullptr;
    int handler = -1;
    uint64_t gid = 0;
};
struct FnInfo {
    llvm::Function *F = nullptr;
    std::vector<DI> code;
    std::unordered_map<const llvm::BasicBlock *, int> blockStart; // index of first non-phi
    std::unordered_map<const llvm::BasicBlock *, std::vector<llvm::PHINode *>> phis;
    std::unordered_map<const llvm::Value *, int> slot;
    int nslots = 0;
    uint64_t id = 0;
    bool isRepo = false;
};

struct Options {
    int maxSteps = 400;      // scheduling decisions
    int yieldBudget = 0;
    int maxPreempt = -1;
    double timeout = 600;
    bool memVisible = false;
    int witnesses = 3;
    uint64_t maxInstr = 4000000000ull;
    uint64_t maxSegInstr = 3000000;
    std::string out;         // result file prefix
    bool livelockIsViolation = true;
    int maxViolations = 1;
    bool verbose = false;
    bool bfs = false;
    bool shape = false;
};
struct Violation {
    std::string kind, msg, where, trace;
};
struct Inconclusive { std::string why; };

class Exec {
public:
    Exec(llvm::Module &m, const Options &o);
    void run();
    bool done() const { return complete; }
    std::vector<Violation> violations;
    bool complete = false;
    std::string incompleteWhy;
    // statistics
    uint64_t nInstr = 0, nStates = 0, nTransitions = 0, nMerges = 0, nForks = 0, nTerminal = 0, nSegments = 0, nAsserts = 0;
    uint64_t maxFrontier = 0, depth = 0;
    uint64_t nStepBound = 0;
    std::set<std::string> reached, reachDeclared;
    std::set<std::string> functionsEncoded;
    std::set<std::string> assertMsgs;
    std::vector<std::string> witnessFiles;

private:
    llvm::Module &M;
    const llvm::DataLayout &DL;
    Options opt;
    std::unordered_map<const llvm::Function *, FnInfo *> fns;
    std::unordered_map<const llvm::GlobalVariable *, uint64_t> gvAddr;
    std::unordered_map<const llvm::Function *, uint64_t> fnAddr;
    std::unordered_map<uint64_t, llvm::Function *> addrFn;
    std::vector<const llvm::GlobalVariable *> tlsVars;
    std::unordered_map<const llvm::GlobalVariable *, uint32_t> tlsIdx;
    std::map<std::tuple<int, uint64_t, uint32_t, uint64_t>, uint32_t> allocKey;
    std::map<int, uint32_t> allocNext;
    std::map<uint64_t, int> fiberIds;
    std::vector<StateP> work;
    std::vector<StateP> *segOut = nullptr;
    std::map<std::string, int> handlerIdx;
    double t0 = 0;
    std::set<std::string> seenViolation;
    uint64_t step = 0;
    std::vector<std::pair<PCRef, E>> *predOut = nullptr;

    enum class R { Next, Stop, Kill, Pushed };
    // decoding
    FnInfo *info(llvm::Function *F);
    void liveness(FnInfo *fi);
    Opd opd(FnInfo *fi, const llvm::Value *v);
    V constV(const llvm::Constant *c);
    uint64_t addrOfGV(const llvm::GlobalVariable *g);
    uint64_t addrOfFn(const llvm::Function *f);
    void initGlobals(State &s);
    void writeInit(Obj *o, uint64_t off, const llvm::Constant *c);
    // state helpers
    Frame *top(State &s);
    const Frame *topc(State &s);
    FiberRef &fiberOf(State &s) { return s.fibers[s.threads[s.cur]->fiber]; }
    V val(State &s, const Frame *f, const Opd &o);
    E valE(State &s, const Frame *f, const Opd &o);
    bool feasible(State &s, E cond, std::shared_ptr<Model> *m = nullptr);
    void assumeCond(State &s, E cond, std::shared_ptr<Model> m);
    StateP forkState(State &s);
    // split on a boolean: returns 1/0 for the current state; forks the other side at the same instruction
    int branchOn(State &s, E cond);
    bool concretize(State &s, E e, uint64_t &out);
    void leaves(E e, std::vector<std::pair<uint64_t, E>> &out);
    // memory
    struct Cand { uint64_t addr; E guard; const Obj *o; uint64_t off; };
    bool resolve(State &s, E addr, uint64_t size, bool write, std::vector<Cand> &out);
    const Obj *find(State &s, uint64_t addr, uint64_t &off, uint32_t &key);
    E word(const Obj *o, uint32_t i);
    E readObj(const Obj *o, uint64_t off, unsigned bytes);
    void writeObj(State &s, uint32_t key, uint64_t off, E v, unsigned bytes, E guard);
    bool load(State &s, E addr, unsigned bytes, E &out);
    bool store(State &s, E addr, E v, unsigned bytes);
    bool loadTy(State &s, E addr, llvm::Type *t, V &out);
    bool storeTy(State &s, E addr, const V &v, llvm::Type *t);
    bool copyMem(State &s, E dst, E src, uint64_t n);
    bool setMem(State &s, E dst, E byte, uint64_t n);
    uint64_t heapAlloc(State &s, uint64_t size, bool zero, ObjKind kind, uint64_t salt);
    void record(State &s, char type, E val, uint64_t aux);
    uint32_t bump(State &s, uint64_t site);
    // control
    void pushFrame(State &s, llvm::Function *F, const std::vector<V> &args, uint64_t siteId, int marker = 0);
    void popFrame(State &s);
    void jump(State &s, llvm::BasicBlock *to);
    void finishCall(State &s, const V &ret);
    R doReturn(State &s, const V &ret);
    R unwind(State &s, uint64_t exc);
    bool typeMatches(State &s, uint64_t thrown, uint64_t want, uint64_t &adj);
    R step1(State &s);
    R doCall(State &s, const DI &d);
    R callHandler(State &s, const DI &d, const std::string &name, std::vector<V> &args);
    R intrinsic(State &s, const DI &d, std::vector<V> &args);
    void runWork();
    // scheduling
    R schedPoint(State &s, int kind);
    E evalPred(State &s, int tid);
    void signature(State &s, std::string &out);
    void position(State &s, std::string &out);
    void enqueue(StateP o);
    std::map<std::string, StateP> pending; // by position, then signature
    StateP mergeStates(StateP a, StateP b);
    void mergeMem(TNode *a, TNode *b, E sel, Mem &out, uint32_t key, int level);
    void expand(StateP s);
    void terminal(State &s);
    // reporting
    void violation(State &s, E cond, const std::string &kind, const std::string &msg);
    std::string where(State &s);
    std::string cstr(State &s, E addr);
    std::string writeTrace(State &s, Model &m, const std::string &file, const std::string &kind, const std::string &msg);
    void checkTime();
    [[noreturn]] void unsupported(State &s, const std::string &what);
    friend struct Handlers;
};
