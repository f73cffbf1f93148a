#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

static const uint64_t FN_BASE = ((1ull << 22) - 64) << 20;
static uint32_t mkKey(unsigned cls, unsigned region, unsigned idx) { return (cls << 22) | (region << 14) | idx; }
static uint64_t mixh(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
    x ^= x >> 31;
    x *= 0xbf58476d1ce4e5b9ull;
    return x ^ (x >> 29);
}
static double nowS()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
struct StopRun {};

bool sameV(const V &a, const V &b)
{
    if (a.e != b.e) return false;
    if (a.agg == b.agg) return true;
    if (!a.agg || !b.agg || a.agg->size() != b.agg->size()) return false;
    for (size_t i = 0; i < a.agg->size(); i++)
        if (!sameV((*a.agg)[i], (*b.agg)[i])) return false;
    return true;
}
V mergeV(E sel, const V &a, const V &b)
{
    if (a.none()) return b;
    if (b.none()) return a;
    V r;
    if (a.e && b.e) {
        if (a.e->w != b.e->w) return a; // dead value of differing type
        r.e = mkIte(sel, a.e, b.e);
        return r;
    }
    if (a.agg == b.agg) return a;
    if (!a.agg || !b.agg) return a;
    r.agg = std::make_shared<std::vector<V>>();
    for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(mergeV(sel, (*a.agg)[i], (*b.agg)[i]));
    return r;
}

// ---------------------------------------------------------------- handlers
enum H {
    H_NONE, H_NONDET, H_ASSUME, H_ASSERT, H_VISIBLE, H_MEM, H_YIELD, H_AWAIT, H_JOINALL, H_SPAWN, H_DAEMON, H_TID, H_NTHREADS, H_ATOMB, H_ATOME,
    H_PRIV, H_QUIET, H_WATCH, H_KEY, H_REACH, H_OBSERVE, H_MERGE, H_MALLOC, H_CALLOC, H_FREE, H_MMAP, H_MUNMAP, H_KILLPATH, H_FAIL, H_THREADDONE, H_ISLIVE,
    H_MEMCPY, H_MEMSET, H_MEMCMP, H_STRLEN, H_ABORT, H_NOOP, H_ZERO, H_CXA_ALLOC, H_CXA_FREE, H_CXA_THROW, H_CXA_BEGIN, H_CXA_END, H_CXA_RETHROW,
    H_CXA_GETPTR, H_TERMINATE, H_DYNCAST, H_GUARD_ACQ, H_GUARD_REL, H_EP_CURRENT, H_EP_RETHROW, H_EP_COPY, H_EP_CTORPTR, H_EP_SWAP, H_EP_EQ, H_BADCAST,
    H_SWITCHTO, H_THROWSTD, H_UNCAUGHT, H_SYMBOLIC_ENGINE, H_CHOOSE, H_EXITTHREAD, H_ARGSYM, H_PUREVIRT, H_EXCWHAT, H_CONCRETE
};
static const std::unordered_map<std::string, int> &handlerTable()
{
    static std::unordered_map<std::string, int> t = {
        {"vf_nondet", H_NONDET}, {"vf_assume", H_ASSUME}, {"vf_assert", H_ASSERT}, {"vf_visible", H_VISIBLE}, {"vf_mem", H_MEM},
        {"vf_yield", H_YIELD}, {"vf_await", H_AWAIT}, {"vf_join_all", H_JOINALL}, {"vf_spawn", H_SPAWN}, {"vf_daemon", H_DAEMON},
        {"vf_tid", H_TID}, {"vf_atomic_begin", H_ATOMB}, {"vf_atomic_end", H_ATOME}, {"vf_private", H_PRIV}, {"vf_quiet", H_QUIET}, {"vf_watch", H_WATCH}, {"vf_key", H_KEY},
        {"vf_reach", H_REACH}, {"vf_observe", H_OBSERVE}, {"vf_merge", H_MERGE}, {"vf_malloc", H_MALLOC}, {"vf_calloc", H_CALLOC},
        {"vf_free", H_FREE}, {"vf_mmap", H_MMAP}, {"vf_munmap", H_MUNMAP}, {"vf_kill_path", H_KILLPATH}, {"vf_fail", H_FAIL},
        {"vf_thread_done", H_THREADDONE}, {"vf_symbolic_engine", H_SYMBOLIC_ENGINE}, {"vf_exit_thread", H_EXITTHREAD}, {"vf_is_live", H_ISLIVE},
        {"vf_concrete", H_CONCRETE},
        {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"memcmp", H_MEMCMP}, {"bcmp", H_MEMCMP}, {"strlen", H_STRLEN},
        {"abort", H_ABORT}, {"_ZSt9terminatev", H_TERMINATE}, {"__clang_call_terminate", H_TERMINATE},
        {"__cxa_allocate_exception", H_CXA_ALLOC}, {"__cxa_free_exception", H_CXA_FREE}, {"__cxa_throw", H_CXA_THROW},
        {"__cxa_begin_catch", H_CXA_BEGIN}, {"__cxa_end_catch", H_CXA_END}, {"__cxa_rethrow", H_CXA_RETHROW},
        {"__cxa_get_exception_ptr", H_CXA_GETPTR}, {"__dynamic_cast", H_DYNCAST}, {"__cxa_bad_cast", H_BADCAST},
        {"__cxa_guard_acquire", H_GUARD_ACQ}, {"__cxa_guard_release", H_GUARD_REL}, {"__cxa_guard_abort", H_NOOP},
        {"__cxa_atexit", H_ZERO}, {"__cxa_thread_atexit", H_ZERO}, {"atexit", H_ZERO},
        {"_ZSt17current_exceptionv", H_EP_CURRENT}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", H_EP_RETHROW},
        {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", H_NOOP}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", H_NOOP},
        {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", H_EP_COPY}, {"_ZNSt15__exception_ptr13exception_ptrC2ERKS0_", H_EP_COPY},
        {"_ZNSt15__exception_ptr13exception_ptrC1EPv", H_EP_CTORPTR}, {"_ZNSt15__exception_ptr13exception_ptrC2EPv", H_EP_CTORPTR},
        {"_ZNSt15__exception_ptr13exception_ptrD1Ev", H_NOOP}, {"_ZNSt15__exception_ptr13exception_ptrD2Ev", H_NOOP},
        {"_ZNSt15__exception_ptr13exception_ptr4swapERS0_", H_EP_SWAP},
        {"_ZNSt13runtime_errorC1EPKc", H_NOOP}, {"_ZNSt13runtime_errorC2EPKc", H_NOOP}, {"_ZNSt11logic_errorC1EPKc", H_NOOP}, {"_ZNSt11logic_errorC2EPKc", H_NOOP},
        {"_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", H_NOOP}, {"_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", H_NOOP},
        {"_ZNSt8ios_base4InitC1Ev", H_NOOP}, {"_ZNSt8ios_base4InitD1Ev", H_NOOP},
        {"_ZN5cocpp9switch_toEPPhS1_", H_SWITCHTO},
        {"_ZSt20__throw_length_errorPKc", H_THROWSTD}, {"_ZSt17__throw_bad_allocv", H_THROWSTD}, {"_ZSt28__throw_bad_array_new_lengthv", H_THROWSTD},
        {"_ZSt19__throw_logic_errorPKc", H_THROWSTD}, {"_ZSt24__throw_out_of_range_fmtPKcz", H_THROWSTD}, {"_ZSt20__throw_out_of_rangePKc", H_THROWSTD},
        {"_ZSt20__throw_system_errori", H_THROWSTD}, {"_ZSt25__throw_bad_function_callv", H_THROWSTD}, {"_ZSt20__throw_future_errori", H_THROWSTD},
        {"__cxa_throw_bad_array_new_length", H_THROWSTD},
        {"_ZSt19uncaught_exceptionsv", H_ZERO}, {"_ZSt18uncaught_exceptionv", H_ZERO}, {"__cxa_pure_virtual", H_PUREVIRT},
    };
    return t;
}
// base classes of externally defined type infos
static const std::map<std::string, std::string> &extBases()
{
    static std::map<std::string, std::string> b = {
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
        {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt12future_error", "_ZTISt11logic_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    };
    return b;
}

// ---------------------------------------------------------------- set-up
Exec::Exec(Module &m, const Options &o) : M(m), DL(m.getDataLayout()), opt(o)
{
    t0 = nowS();
    unsigned i = 0;
    for (auto &F : M) {
        uint64_t a = FN_BASE + 16 * (uint64_t)(++i);
        fnAddr[&F] = a;
        addrFn[a] = &F;
    }
    unsigned g = 0x100;
    for (auto &G : M.globals()) {
        if (G.isThreadLocal()) { tlsIdx[&G] = tlsVars.size(); tlsVars.push_back(&G); continue; }
        gvAddr[&G] = (uint64_t)mkKey(0, 0, 0) << 20 | (uint64_t)(g++) << 20;
    }
    // reachability points declared anywhere in the module
    if (auto *R = M.getFunction("vf_reach"))
        for (auto *U : R->users())
            if (auto *CB = dyn_cast<CallBase>(U)) {
                if (auto *GV = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts()))
                    if (GV->hasInitializer())
                        if (auto *CDA = dyn_cast<ConstantDataArray>(GV->getInitializer())) reachDeclared.insert(CDA->getAsCString().str());
            }
}
uint64_t Exec::addrOfGV(const GlobalVariable *g)
{
    auto it = gvAddr.find(g);
    if (it == gvAddr.end()) { fprintf(stderr, "no address for global %s\n", g->getName().str().c_str()); _Exit(3); }
    return it->second;
}
uint64_t Exec::addrOfFn(const Function *f) { return fnAddr.at(f); }

V Exec::constV(const Constant *c)
{
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) {
            V r; // two words, low first
            r.agg = std::make_shared<std::vector<V>>();
            r.agg->push_back(mkConst(ci->getValue().extractBitsAsZExtValue(64, 0), 64));
            r.agg->push_back(mkConst(ci->getValue().extractBitsAsZExtValue(ci->getBitWidth() - 64, 64), 64));
            return r;
        }
        return mkConst(ci->getZExtValue(), ci->getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return mkConst(0, 64);
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        auto b = cf->getValueAPF().bitcastToAPInt();
        if (b.getBitWidth() > 64) return mkConst(0, 64);
        return mkConst(b.getZExtValue(), b.getBitWidth());
    }
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (t->isIntegerTy()) return mkConst(0, std::min(64u, t->getIntegerBitWidth()));
        if (t->isPointerTy()) return mkConst(0, 64);
        if (t->isDoubleTy()) return mkConst(0, 64);
        if (t->isFloatTy()) return mkConst(0, 32);
        V r;
        r.agg = std::make_shared<std::vector<V>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : isa<FixedVectorType>(t) ? cast<FixedVectorType>(t)->getNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) r.agg->push_back(constV(c->getAggregateElement(i)));
        return r;
    }
    if (auto *gv = dyn_cast<GlobalValue>(c)) if (gv->hasExternalWeakLinkage() && gv->isDeclaration()) return mkConst(0, 64);
    if (auto *f = dyn_cast<Function>(c)) return mkConst(addrOfFn(f), 64);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return mkConst(addrOfGV(g), 64);
    if (auto *al = dyn_cast<GlobalAlias>(c)) return constV(al->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        auto op = [&](unsigned i) { return constV(ce->getOperand(i)).e; };
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto *gep = cast<GEPOperator>(ce);
            if (!gep->accumulateConstantOffset(DL, off)) break;
            return mkAdd(op(0), mkConst(off.getZExtValue(), 64));
        }
        case Instruction::BitCast: return constV(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
            unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
            return mkZExt(op(0), w);
        }
        case Instruction::Add: return mkAdd(op(0), op(1));
        case Instruction::Sub: return mkSub(op(0), op(1));
        case Instruction::ICmp:
            if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkEq(op(0), op(1));
            if (ce->getPredicate() == CmpInst::ICMP_NE) return mkNot(mkEq(op(0), op(1)));
            break;
        default: break;
        }
    }
    if (isa<ConstantDataSequential>(c) || isa<ConstantAggregate>(c)) {
        V r;
        r.agg = std::make_shared<std::vector<V>>();
        for (unsigned i = 0;; i++) {
            Constant *e = c->getAggregateElement(i);
            if (!e) break;
            r.agg->push_back(constV(e));
        }
        return r;
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    throw Inconclusive{"unsupported constant: " + s};
}

void Exec::writeInit(Obj *o, uint64_t off, const Constant *c)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // object is zero filled
    if (auto *st = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) writeInit(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        uint64_t es = DL.getTypeAllocSize(et);
        for (unsigned i = 0; i < n; i++) writeInit(o, off + i * es, c->getAggregateElement(i));
        return;
    }
    unsigned bytes = DL.getTypeStoreSize(t);
    V v;
    try { v = constV(c); } catch (Inconclusive &) { return; }
    if (v.agg) {
        for (unsigned k = 0; k < v.agg->size(); k++) o->set((off / 8) + k, (*v.agg)[k].e);
        return;
    }
    if (bytes > 8) return;
    E e = mkZExt(v.e, bytes * 8);
    // merge into words
    for (unsigned b = 0; b < bytes; b++) {
        uint64_t a = off + b;
        E w = o->get(a / 8);
        if (!w) w = mkConst(0, 64);
        unsigned sh = (a % 8) * 8;
        E byte = mkExtract(e, b * 8, 8);
        uint64_t m = 0xffull << sh;
        o->set(a / 8, mkConst((w->c & ~m) | (byte->c << sh), 64));
    }
}
void Exec::initGlobals(State &s)
{
    static std::list<std::string> names;
    for (auto &G : M.globals()) {
        if (G.isThreadLocal()) continue;
        Obj *o = new Obj;
        o->base = addrOfGV(&G);
        o->size = std::max<uint64_t>(1, DL.getTypeAllocSize(G.getValueType()));
        if (!G.hasInitializer()) o->size = std::max<uint64_t>(o->size, 512);
        if (o->size > (1 << 20)) throw Inconclusive{"global too large: " + G.getName().str()};
        o->kind = ObjKind::Global;
        o->live = mkTrue();
        o->zero = true;
        names.push_back(G.getName().str());
        o->name = &names.back();
        o->readOnly = G.isConstant();
        if (G.hasInitializer()) writeInit(o, 0, G.getInitializer());
        s.mem.put(o->base >> 20, o);
    }
}

// ---------------------------------------------------------------- decoding
Opd Exec::opd(FnInfo *fi, const Value *v)
{
    Opd o;
    auto it = fi->slot.find(v);
    if (it != fi->slot.end()) { o.slot = it->second; return o; }
    if (auto *c = dyn_cast<Constant>(v)) {
        if (auto *g = dyn_cast<GlobalVariable>(c))
            if (g->isThreadLocal()) { o.tls = g; return o; }
        try { o.c = constV(c); } catch (Inconclusive &) { o.c = V(); }
        return o;
    }
    return o; // metadata, basic blocks, inline asm
}
FnInfo *Exec::info(Function *F)
{
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    auto *fi = new FnInfo;
    fns[F] = fi;
    fi->F = F;
    fi->id = fns.size();
    // functions of the code under analysis, including those inlined here
    for (auto &B : *F)
        for (auto &I : B)
            for (const DILocation *l = I.getDebugLoc().get(); l; l = l->getInlinedAt())
                if (auto *sp = l->getScope()->getSubprogram())
                    if (sp->getFile() && (sp->getFile()->getFilename().contains("cocpp/") || sp->getFile()->getDirectory().contains("cocpp/"))) {
                        StringRef ln = sp->getLinkageName();
                        functionsEncoded.insert(ln.empty() ? sp->getName().str() : demangle(ln.str()));
                    }
    for (auto &A : F->args()) fi->slot[&A] = fi->nslots++;
    for (auto &B : *F)
        for (auto &I : B)
            if (!I.getType()->isVoidTy()) fi->slot[&I] = fi->nslots++;
    for (auto &B : *F) {
        bool first = true;
        for (auto &I : B) {
            if (auto *p = dyn_cast<PHINode>(&I)) { fi->phis[&B].push_back(p); continue; }
            if (first) { fi->blockStart[&B] = fi->code.size(); first = false; }
            DI d;
            d.I = &I;
            d.op = I.getOpcode();
            d.gid = fi->id * 1000003ull + fi->code.size();
            if (!I.getType()->isVoidTy()) {
                d.dst = fi->slot[&I];
                Type *t = I.getType();
                d.w = t->isIntegerTy() ? t->getIntegerBitWidth() : t->isPointerTy() ? 64 : t->isDoubleTy() ? 64 : t->isFloatTy() ? 32 : 0;
            }
            if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                d.ops.push_back(opd(fi, g->getPointerOperand()));
                uint64_t off = 0;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (StructType *st = gi.getStructTypeOrNull()) off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else {
                        uint64_t es = DL.getTypeAllocSize(gi.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) off += (uint64_t)ci->getSExtValue() * es;
                        else d.gepVar.push_back({opd(fi, ix), es});
                    }
                }
                d.gepConst = off;
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                for (auto &a : cb->args()) d.ops.push_back(opd(fi, a.get()));
                Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                d.callee = dyn_cast<Function>(cv);
                if (!d.callee) d.ops.push_back(opd(fi, cb->getCalledOperand()));
            } else
                for (auto &u : I.operands()) d.ops.push_back(opd(fi, u.get()));
            fi->code.push_back(std::move(d));
        }
    }
    liveness(fi);
    return fi;
}
void Exec::liveness(FnInfo *fi)
{
    size_t n = fi->nslots;
    std::unordered_map<const BasicBlock *, std::vector<bool>> in;
    std::vector<BasicBlock *> order;
    for (auto &B : *fi->F) { order.push_back(&B); in[&B] = std::vector<bool>(n, false); }
    std::reverse(order.begin(), order.end());
    auto liveOut = [&](BasicBlock *B) {
        std::vector<bool> o(n, false);
        for (BasicBlock *S : successors(B)) {
            auto &si = in[S];
            for (size_t i = 0; i < n; i++) if (si[i]) o[i] = true;
            for (auto *p : fi->phis[S]) {
                auto it = fi->slot.find(p->getIncomingValueForBlock(B));
                if (it != fi->slot.end()) o[it->second] = true;
            }
        }
        return o;
    };
    auto back = [&](BasicBlock *B, std::vector<bool> l, bool rec) {
        for (auto it = B->rbegin(); it != B->rend(); ++it) {
            Instruction &I = *it;
            auto si = fi->slot.find(&I);
            if (si != fi->slot.end()) l[si->second] = false;
            if (isa<PHINode>(I)) continue;
            if (rec && isa<CallBase>(I))
                for (auto &d : fi->code)
                    if (d.I == &I) {
                        for (size_t i = 0; i < n; i++) if (l[i]) d.live.push_back(i);
                        break;
                    }
            for (auto &u : I.operands()) {
                auto oi = fi->slot.find(u.get());
                if (oi != fi->slot.end()) l[oi->second] = true;
            }
        }
        return l;
    };
    for (bool ch = true; ch;) {
        ch = false;
        for (auto *B : order) {
            auto l = back(B, liveOut(B), false);
            if (l != in[B]) { in[B] = l; ch = true; }
        }
    }
    for (auto *B : order) back(B, liveOut(B), true);
}

// ---------------------------------------------------------------- state helpers
Frame *Exec::top(State &s) { return fiberOf(s).mut()->frames.back().mut(); }
const Frame *Exec::topc(State &s) { return fiberOf(s)->frames.back().p; }
V Exec::val(State &s, const Frame *f, const Opd &o)
{
    if (o.slot >= 0) {
        const V &v = f->regs[o.slot];
        if (v.none()) throw Inconclusive{"use of an undefined register in " + f->fn->F->getName().str()};
        return v;
    }
    if (o.tls) {
        uint32_t k = mkKey(2, 200 + s.cur, tlsIdx.at(o.tls));
        return mkConst((uint64_t)k << 20, 64);
    }
    return o.c;
}
E Exec::valE(State &s, const Frame *f, const Opd &o)
{
    if (o.slot >= 0) {
        E e = f->regs[o.slot].e;
        if (!e) throw Inconclusive{"scalar expected in " + f->fn->F->getName().str()};
        return e;
    }
    V v = val(s, f, o);
    if (!v.e) throw Inconclusive{"scalar constant expected in " + f->fn->F->getName().str()};
    return v.e;
}
// variables of a small term
static bool varsOf(E root, std::vector<E> &vs)
{
    std::vector<E> st{root};
    std::set<E> seen;
    while (!st.empty()) {
        E e = st.back();
        st.pop_back();
        if (!seen.insert(e).second) continue;
        if (seen.size() > 120) return false;
        if (e->k == K::Var) { vs.push_back(e); if (vs.size() > 6) return false; continue; }
        for (E ch : {e->a, e->b, e->d}) if (ch) st.push_back(ch);
    }
    return true;
}
bool Exec::feasible(State &s, E cond, std::shared_ptr<Model> *m)
{
    if (cond->isTrue()) return true;
    if (cond->isFalse()) return false;
    if (s.wit && s.wit->eval(cond)) { if (m) *m = s.wit; return true; }
    if (s.wit) { // a small change to the witness often suffices (fresh input bits)
        std::vector<E> vs;
        if (varsOf(cond, vs))
            for (E v : vs) {
                uint64_t old = v->c < s.wit->vars.size() ? s.wit->vars[v->c] : 0;
                for (uint64_t nv : {old ^ 1, maskw(v->w), (uint64_t)0}) {
                    if (nv == old) continue;
                    auto c = std::make_shared<Model>(*s.wit);
                    c->set(v->c, nv & maskw(v->w));
                    if (c->eval(cond) && satisfies(*c, s.pc, cond)) {
                        gSolver.queries++;
                        gSolver.sat++;
                        gSolver.modelHits++;
                        if (m) *m = c;
                        return true;
                    }
                    if (v->w == 1) break;
                }
            }
    }
    Sat r = solve(s.pc, cond, m);
    if (r == Sat::Unknown) throw Inconclusive{"solver returned unknown"};
    return r == Sat::Yes;
}
void Exec::assumeCond(State &s, E cond, std::shared_ptr<Model> m)
{
    if (cond->isTrue()) return;
    s.pc = pcAdd(s.pc, cond);
    if (m) s.wit = m;
    else if (s.wit && !s.wit->eval(cond)) s.wit = nullptr;
}
StateP Exec::forkState(State &s) { nForks++; return StateP(new State(s)); }
int Exec::branchOn(State &s, E cond)
{
    if (cond->isConst()) return cond->c != 0;
    for (auto &k : s.known) if (k.first == cond) return (int)k.second;
    E nc = mkNot(cond);
    for (auto &k : s.known) if (k.first == nc) return !k.second;
    if (getenv("SYMX_BR")) fprintf(stderr, "BR %s :: %s\n", where(s).c_str(), show(cond, 3).c_str());
    std::shared_ptr<Model> mt, mf;
    bool ft = feasible(s, cond, &mt);
    bool ff = ft ? feasible(s, nc, &mf) : true;
    if (ft && ff) {
        StateP o = forkState(s);
        assumeCond(*o, nc, mf);
        o->known.push_back({cond, 0});
        work.push_back(std::move(o));
        assumeCond(s, cond, mt);
        s.known.push_back({cond, 1});
        return 1;
    }
    s.known.push_back({cond, ft});
    return ft;
}
void Exec::leaves(E e, std::vector<std::pair<uint64_t, E>> &out)
{
    std::map<uint32_t, std::pair<E, E>, std::greater<uint32_t>> q;
    q[e->id] = {e, mkTrue()};
    std::map<uint64_t, E> res;
    while (!q.empty()) {
        auto [x, g] = q.begin()->second;
        q.erase(q.begin());
        if (x->isConst()) {
            auto &r = res[x->c];
            r = r ? mkOr(r, g) : g;
            continue;
        }
        auto add = [&](E c, E gg) {
            if (gg->isFalse()) return;
            auto it = q.find(c->id);
            if (it == q.end()) q[c->id] = {c, gg};
            else it->second.second = mkOr(it->second.second, gg);
        };
        add(x->b, mkAnd(g, x->a));
        add(x->d, mkAnd(g, mkNot(x->a)));
    }
    for (auto &p : res) out.push_back({p.first, p.second});
}
bool Exec::concretize(State &s, E e, uint64_t &out)
{
    if (e->isConst()) { out = e->c; return true; }
    for (auto &k : s.known) if (k.first == e) { out = k.second; return true; }
    // enumerate feasible values with the solver; one state per value
    std::vector<std::pair<uint64_t, std::shared_ptr<Model>>> vals;
    E rest = mkTrue();
    if (!s.wit) { std::shared_ptr<Model> m; if (!feasible(s, mkTrue(), nullptr)) return false; if (solve(s.pc, mkTrue(), &m) != Sat::Yes) return false; s.wit = m; }
    for (;;) {
        std::shared_ptr<Model> m;
        if (!feasible(s, rest, &m)) break;
        if (!m) m = s.wit;
        uint64_t v = m->eval(e);
        vals.push_back({v, m});
        rest = mkAnd(rest, mkNot(mkEq(e, mkConst(v, e->w))));
        if (vals.size() > 256) throw Inconclusive{"too many values for a symbolic operand at " + where(s)};
    }
    if (vals.empty()) return false;
    for (size_t i = 1; i < vals.size(); i++) {
        StateP o = forkState(s);
        assumeCond(*o, mkEq(e, mkConst(vals[i].first, e->w)), vals[i].second);
        o->known.push_back({e, vals[i].first});
        work.push_back(std::move(o));
    }
    assumeCond(s, mkEq(e, mkConst(vals[0].first, e->w)), vals[0].second);
    s.known.push_back({e, vals[0].first});
    out = vals[0].first;
    return true;
}
void Exec::record(State &s, char type, E v, uint64_t aux)
{
    s.hist = new Hist{s.hist, nullptr, nullptr, type, v, aux};
}
uint32_t Exec::bump(State &s, uint64_t site)
{
    auto &c = fiberOf(s).mut()->counters;
    auto it = std::lower_bound(c.begin(), c.end(), std::make_pair(site, 0u));
    if (it == c.end() || it->first != site) it = c.insert(it, {site, 0});
    return it->second++;
}

// ---------------------------------------------------------------- memory
const Obj *Exec::find(State &s, uint64_t addr, uint64_t &off, uint32_t &key)
{
    uint64_t k = addr >> 20;
    if (k >= (1u << 24)) return nullptr;
    key = (uint32_t)k;
    if ((key >> 22) == 3) key &= ~15u;
    const Obj *o = s.mem.get(key);
    if (!o) return nullptr;
    off = addr - o->base;
    return o;
}
E Exec::word(const Obj *o, uint32_t i)
{
    E e = o->get(i);
    if (e) return e;
    if (o->zero) return mkConst(0, 64);
    char b[64];
    snprintf(b, sizeof b, "u_%llx_%u", (unsigned long long)o->base, i);
    return mkVar(b, 64);
}
E Exec::readObj(const Obj *o, uint64_t off, unsigned bytes)
{
    uint32_t wi = off / 8;
    unsigned bo = off % 8;
    if (bo + bytes <= 8) return mkExtract(word(o, wi), bo * 8, bytes * 8);
    unsigned n1 = 8 - bo;
    E lo = mkExtract(word(o, wi), bo * 8, n1 * 8);
    E hi = mkExtract(word(o, wi + 1), 0, (bytes - n1) * 8);
    return mkConcat(hi, lo);
}
void Exec::writeObj(State &s, uint32_t key, uint64_t off, E v, unsigned bytes, E guard)
{
    const Obj *oc = s.mem.get(key);
    uint32_t wi = off / 8;
    unsigned bo = off % 8;
    if (bo + bytes > 8) {
        unsigned n1 = 8 - bo;
        writeObj(s, key, off, mkExtract(v, 0, n1 * 8), n1, guard);
        writeObj(s, key, off + n1, mkExtract(v, n1 * 8, (bytes - n1) * 8), bytes - n1, guard);
        return;
    }
    E nw = v;
    if (bytes < 8) {
        E old = word(oc, wi);
        if (bo) nw = mkConcat(nw, mkExtract(old, 0, bo * 8));
        if (bo + bytes < 8) nw = mkConcat(mkExtract(old, (bo + bytes) * 8, (8 - bo - bytes) * 8), nw);
    }
    if (!guard->isTrue()) nw = mkIte(guard, cofactor(nw, guard, true), cofactor(word(oc, wi), guard, false));
    E cur = oc->get(wi);
    if (cur == nw) return;
    if (oc->kind != ObjKind::Stack) {
        uint64_t a = oc->base + off;
        bool pv = false;
        for (auto &r : s.priv) if (a >= r.first && a < r.second) pv = true;
        if (pv) s.privDirty = true;
        else if (s.wlog.size() > 200) s.dirty = true;
        else {
            bool have = false;
            for (auto &l : s.wlog) if (std::get<0>(l) == key && std::get<1>(l) == wi) have = true;
            if (!have) s.wlog.push_back({key, wi, word(oc, wi)});
        }
    }
    s.mem.mut(key)->set(wi, nw);
}
bool Exec::resolve(State &s, E addr, uint64_t size, bool write, std::vector<Cand> &out)
{
    auto one = [&](uint64_t a, E g, E &bad, std::string &why) {
        uint64_t off;
        uint32_t key;
        const Obj *o = find(s, a, off, key);
        if (!o || off + size > o->size || off > o->size) {
            bad = mkOr(bad, g);
            char b[160];
            if (!o) snprintf(b, sizeof b, "%s of %llu bytes at invalid address 0x%llx", write ? "write" : "read", (unsigned long long)size, (unsigned long long)a);
            else snprintf(b, sizeof b, "%s of %llu bytes at offset %lld outside an object of %llu bytes", write ? "write" : "read",
                          (unsigned long long)size, (long long)off, (unsigned long long)o->size);
            why = b;
            return;
        }
        if (!o->live->isTrue()) {
            E dead = mkAnd(g, mkNot(o->live));
            if (!dead->isFalse()) { bad = mkOr(bad, dead); why = "access to freed memory"; }
        }
        if (write && o->readOnly) { bad = mkOr(bad, g); why = "write to read-only memory"; return; }
        out.push_back({a, g, o, off});
    };
    E bad = mkFalse();
    std::string why;
    if (addr->isConst()) {
        one(addr->c, mkTrue(), bad, why);
    } else {
        uint64_t kv = 0;
        bool have = false;
        for (auto &k : s.known) if (k.first == addr) { kv = k.second; have = true; }
        if (have) one(kv, mkTrue(), bad, why);
        else if (addr->iteConst && addr->leaves < 2000) {
            std::vector<std::pair<uint64_t, E>> lv;
            leaves(addr, lv);
            for (auto &p : lv) one(p.first, p.second, bad, why);
        } else {
            uint64_t v;
            if (!concretize(s, addr, v)) return false;
            one(v, mkTrue(), bad, why);
        }
    }
    if (!bad->isFalse()) {
        std::shared_ptr<Model> m;
        if (feasible(s, bad, &m)) {
            violation(s, bad, "memory", why);
            E ok = mkNot(bad);
            std::shared_ptr<Model> m2;
            if (!feasible(s, ok, &m2)) return false;
            assumeCond(s, ok, m2);
        } else if (!out.empty() && bad->isTrue())
            return false;
    }
    return !out.empty();
}
bool Exec::load(State &s, E addr, unsigned bytes, E &outv)
{
    if (addr->isConst()) { // fast path
        uint64_t off;
        uint32_t key;
        const Obj *o = find(s, addr->c, off, key);
        if (o && off + bytes <= o->size && o->live->isTrue()) { outv = readObj(o, off, bytes); return true; }
    }
    std::vector<Cand> cs;
    if (!resolve(s, addr, bytes, false, cs)) return false;
    E r = cofactor(readObj(cs.back().o, cs.back().off, bytes), cs.back().guard, true);
    for (size_t i = cs.size() - 1; i-- > 0;) r = mkIte(cs[i].guard, cofactor(readObj(cs[i].o, cs[i].off, bytes), cs[i].guard, true), r);
    outv = r;
    return true;
}
bool Exec::store(State &s, E addr, E v, unsigned bytes)
{
    if (v->w != bytes * 8) v = mkZExt(v, bytes * 8);
    if (addr->isConst()) {
        uint64_t off;
        uint32_t key;
        const Obj *o = find(s, addr->c, off, key);
        if (o && off + bytes <= o->size && o->live->isTrue() && !o->readOnly) { writeObj(s, key, off, v, bytes, mkTrue()); return true; }
    }
    std::vector<Cand> cs;
    if (!resolve(s, addr, bytes, true, cs)) return false;
    for (auto &c : cs) {
        uint64_t off;
        uint32_t key;
        find(s, c.addr, off, key);
        writeObj(s, key, off, v, bytes, cs.size() == 1 ? mkTrue() : c.guard);
    }
    return true;
}
bool Exec::loadTy(State &s, E addr, Type *t, V &out)
{
    if (auto *st = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL.getStructLayout(st);
        out.agg = std::make_shared<std::vector<V>>(st->getNumElements());
        for (unsigned i = 0; i < st->getNumElements(); i++)
            if (!loadTy(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i), (*out.agg)[i])) return false;
        return true;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        uint64_t es = DL.getTypeAllocSize(et);
        out.agg = std::make_shared<std::vector<V>>(n);
        for (unsigned i = 0; i < n; i++)
            if (!loadTy(s, mkAdd(addr, mkConst(i * es, 64)), et, (*out.agg)[i])) return false;
        return true;
    }
    unsigned bytes = DL.getTypeStoreSize(t);
    if (bytes > 8) {
        if (bytes != 16) throw Inconclusive{"load of an unsupported scalar type"};
        out.agg = std::make_shared<std::vector<V>>(2);
        E lo, hi;
        if (!load(s, addr, 8, lo) || !load(s, mkAdd(addr, mkConst(8, 64)), 8, hi)) return false;
        (*out.agg)[0] = lo;
        (*out.agg)[1] = hi;
        return true;
    }
    E e;
    if (!load(s, addr, bytes, e)) return false;
    unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : bytes * 8;
    out = mkExtract(e, 0, w);
    return true;
}
bool Exec::storeTy(State &s, E addr, const V &v, Type *t)
{
    if (auto *st = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            if (!storeTy(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), (*v.agg)[i], st->getElementType(i))) return false;
        return true;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        uint64_t es = DL.getTypeAllocSize(et);
        for (unsigned i = 0; i < n; i++)
            if (!storeTy(s, mkAdd(addr, mkConst(i * es, 64)), (*v.agg)[i], et)) return false;
        return true;
    }
    unsigned bytes = DL.getTypeStoreSize(t);
    if (v.agg) {
        if (bytes != 16) throw Inconclusive{"store of an unsupported scalar type"};
        return store(s, addr, (*v.agg)[0].e, 8) && store(s, mkAdd(addr, mkConst(8, 64)), (*v.agg)[1].e, 8);
    }
    return store(s, addr, v.e, bytes);
}
bool Exec::copyMem(State &s, E dst, E src, uint64_t n)
{
    if (n == 0) return true;
    uint64_t d, sr;
    if (!dst->isConst() || !src->isConst()) {
        // small copies through symbolic pointers keep the pointers symbolic
        if (n <= 64) {
            std::vector<std::pair<unsigned, E>> parts;
            for (uint64_t i = 0; i < n;) {
                unsigned b = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1;
                E e;
                if (!load(s, mkAdd(src, mkConst(i, 64)), b, e)) return false;
                parts.push_back({b, e});
                i += b;
            }
            uint64_t i = 0;
            for (auto &p : parts) {
                if (!store(s, mkAdd(dst, mkConst(i, 64)), p.second, p.first)) return false;
                i += p.first;
            }
            return true;
        }
    }
    if (!concretize(s, dst, d) || !concretize(s, src, sr)) return false;
    std::vector<Cand> cs, cd;
    if (!resolve(s, mkConst(sr, 64), n, false, cs)) return false;
    if (!resolve(s, mkConst(d, 64), n, true, cd)) return false;
    ObjRef hold(const_cast<Obj *>(cs[0].o));
    uint64_t so = cs[0].off, dof = cd[0].off;
    uint32_t key;
    uint64_t tmp;
    find(s, d, tmp, key);
    if (so % 8 == dof % 8) {
        // word-wise copy keeps untouched words untouched
        uint64_t i = 0;
        while (i < n) {
            if ((so + i) % 8 == 0 && n - i >= 8) {
                E w = hold->get((so + i) / 8);
                if (!w && hold->zero) w = mkConst(0, 64);
                if (w) writeObj(s, key, dof + i, w, 8, mkTrue());
                else { E u = word(hold.p, (so + i) / 8); writeObj(s, key, dof + i, u, 8, mkTrue()); }
                i += 8;
            } else {
                unsigned b = 1;
                uint64_t room = 8 - (so + i) % 8;
                b = std::min<uint64_t>(room, n - i);
                writeObj(s, key, dof + i, readObj(hold.p, so + i, b), b, mkTrue());
                i += b;
            }
        }
    } else {
        for (uint64_t i = 0; i < n;) {
            unsigned b = std::min<uint64_t>(8, n - i);
            writeObj(s, key, dof + i, readObj(hold.p, so + i, b), b, mkTrue());
            i += b;
        }
    }
    return true;
}
bool Exec::setMem(State &s, E dst, E byte, uint64_t n)
{
    if (n == 0) return true;
    std::vector<Cand> cd;
    if (!resolve(s, dst, n, true, cd)) return false;
    E w = byte;
    for (int i = 1; i < 8; i++) w = mkConcat(byte, w);
    for (auto &c : cd) {
        uint64_t off;
        uint32_t key;
        find(s, c.addr, off, key);
        E g = cd.size() == 1 ? mkTrue() : c.guard;
        for (uint64_t i = 0; i < n;) {
            uint64_t room = 8 - (off + i) % 8;
            unsigned b = std::min<uint64_t>(room, n - i);
            writeObj(s, key, off + i, mkExtract(w, 0, b * 8), b, g);
            i += b;
        }
    }
    return true;
}
uint64_t Exec::heapAlloc(State &s, uint64_t size, bool zero, ObjKind kind, uint64_t salt)
{
    const Frame *f = topc(s);
    uint64_t site = mixh(mixh(f->site, f->fn->code[f->pc].gid), salt);
    uint32_t n = bump(s, site);
    int fid = s.threads[s.cur]->fiber;
    unsigned cls = kind == ObjKind::Map ? 3 : 1;
    auto kk = std::make_tuple(fid + (cls == 3 ? 1000 : 0), site, n, size);
    auto it = allocKey.find(kk);
    if (it == allocKey.end()) {
        uint32_t &nx = allocNext[fid + (cls == 3 ? 1000 : 0)];
        uint32_t idx = ++nx;
        if (cls == 3) idx *= 16;
        if (idx >= 16384) throw Inconclusive{"heap object limit reached"};
        it = allocKey.insert({kk, mkKey(cls, fid, idx)}).first;
    }
    uint32_t key = it->second;
    if (cls == 1 && size > (1 << 20)) throw Inconclusive{"heap object too large"};
    if (cls == 3 && size > (16u << 20)) throw Inconclusive{"mapping too large"};
    Obj *o = new Obj;
    o->base = (uint64_t)key << 20;
    o->size = size;
    o->live = mkTrue();
    o->kind = kind;
    o->zero = zero;
    s.mem.put(key, o);
    s.dirty = true;
    record(s, 'A', mkConst(o->base, 64), size);
    return o->base;
}

// ---------------------------------------------------------------- reporting
std::string Exec::where(State &s)
{
    std::string r;
    auto &fr = fiberOf(s)->frames;
    int n = 0;
    for (size_t i = fr.size(); i-- > 0 && n < 8; n++) {
        if (!r.empty()) r += " < ";
        std::string d = demangle(fr[i]->fn->F->getName().str());
        if (d.size() > 90) d = d.substr(0, 90) + "...";
        r += d;
        auto &di = fr[i]->fn->code[fr[i]->pc];
        if (auto &dl = di.I->getDebugLoc()) r += ":" + std::to_string(dl.getLine());
    }
    return r;
}
std::string Exec::cstr(State &s, E addr)
{
    std::string r;
    if (!addr->isConst()) return "?";
    uint64_t off;
    uint32_t key;
    const Obj *o = find(s, addr->c, off, key);
    if (!o) return "?";
    for (; off < o->size; off++) {
        E b = readObj(o, off, 1);
        if (!b->isConst() || b->c == 0) break;
        r += (char)b->c;
    }
    return r;
}
void Exec::unsupported(State &s, const std::string &what) { throw Inconclusive{what + " at " + where(s)}; }
void Exec::checkTime()
{
    if (nowS() - t0 > opt.timeout) throw Inconclusive{"time limit"};
}
std::string Exec::writeTrace(State &s, Model &m, const std::string &file, const std::string &kind, const std::string &msg)
{
    std::vector<const Hist *> ev;
    for (const Hist *h = s.hist; h;) {
        if (h->type == 'M') { h = m.eval(h->sel) ? h->p1 : h->p2; continue; }
        ev.push_back(h);
        h = h->p1;
    }
    std::reverse(ev.begin(), ev.end());
    std::ofstream f(file);
    f << "# vftrace 1\n# kind " << kind << "\n# msg " << msg << "\n# where " << where(s) << "\n";
    for (auto *h : ev) {
        uint64_t v = h->val ? m.eval(h->val) : 0;
        f << h->type << " " << v << " " << h->aux << "\n";
    }
    f << "E " << kind << "\n";
    return file;
}
void Exec::violation(State &s, E cond, const std::string &kind, const std::string &msg)
{
    std::shared_ptr<Model> m;
    if (s.wit && s.wit->eval(cond)) m = s.wit;
    else {
        Sat r = solve(s.pc, cond, &m);
        if (r == Sat::Unknown) throw Inconclusive{"solver returned unknown"};
        if (r == Sat::No) return;
    }
    std::string id = kind + ":" + msg;
    if (!seenViolation.insert(id).second) return;
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.where = where(s);
    v.trace = writeTrace(s, *m, opt.out + ".viol" + std::to_string(violations.size()) + ".trace", kind, msg);
    violations.push_back(v);
    fprintf(stderr, "violation: %s: %s\n   at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
    if ((int)violations.size() >= opt.maxViolations) throw StopRun{};
}

// ---------------------------------------------------------------- control
void Exec::pushFrame(State &s, Function *F, const std::vector<V> &args, uint64_t siteId, int marker)
{
    if (F->isDeclaration()) unsupported(s, "call of an undefined function " + demangle(F->getName().str()));
    FnInfo *fi = info(F);
    Fiber *fb = fiberOf(s).mut();
    if (fb->frames.size() > 400) unsupported(s, "call depth");
    Frame *f = new Frame;
    f->fn = fi;
    f->regs.resize(fi->nslots);
    for (unsigned i = 0; i < F->arg_size() && i < args.size(); i++) f->regs[i] = args[i];
    for (size_t i = F->arg_size(); i < args.size(); i++) f->varargs.push_back(args[i]);
    f->site = mixh(fb->frames.empty() ? 7 : fb->frames.back()->site, siteId);
    f->marker = marker;
    f->pc = fi->blockStart[&F->getEntryBlock()];
    fb->frames.push_back(FrameRef(f));
}
void Exec::popFrame(State &s)
{
    Fiber *fb = fiberOf(s).mut();
    FrameRef f = fb->frames.back();
    for (uint32_t k : f->allocas) { s.mem.put(k, nullptr); }
    fb->stackTop -= f->allocas.size();
    fb->frames.pop_back();
}
void Exec::jump(State &s, BasicBlock *to)
{
    Frame *f = top(s);
    BasicBlock *from = f->fn->code[f->pc].I->getParent();
    auto &ph = f->fn->phis[to];
    if (!ph.empty()) {
        std::vector<V> vals;
        for (auto *p : ph) {
            Value *iv = p->getIncomingValueForBlock(from);
            auto it = f->fn->slot.find(iv);
            if (it != f->fn->slot.end()) vals.push_back(f->regs[it->second]);
            else { Opd o = opd(f->fn, iv); vals.push_back(val(s, f, o)); }
        }
        for (size_t i = 0; i < ph.size(); i++) f->regs[f->fn->slot[ph[i]]] = vals[i];
    }
    f->pc = f->fn->blockStart[to];
}
void Exec::finishCall(State &s, const V &ret)
{
    Frame *f = top(s);
    const DI &d = f->fn->code[f->pc];
    if (d.dst >= 0) f->regs[d.dst] = ret;
    if (auto *inv = dyn_cast<InvokeInst>(d.I)) jump(s, inv->getNormalDest());
    else f->pc++;
}
Exec::R Exec::doReturn(State &s, const V &ret)
{
    int marker = topc(s)->marker;
    popFrame(s);
    if (marker == 1) {
        E r = ret.e;
        predOut->push_back({s.pc, mkNot(mkEq(r, mkConst(0, r->w)))});
        return R::Kill;
    }
    if (fiberOf(s)->frames.empty()) {
        Thread *t = s.threads[s.cur].mut();
        t->status = TS::Done;
        t->atomicDepth = 0;
        s.spKind = SP_EXIT;
        s.dirty = true;
        return R::Stop;
    }
    finishCall(s, ret);
    return R::Next;
}
bool Exec::typeMatches(State &s, uint64_t thrown, uint64_t want, uint64_t &adj)
{
    if (thrown == want) return true;
    // identical names (weak duplicates) compare by name
    uint64_t off;
    uint32_t key;
    const Obj *o = find(s, thrown, off, key);
    const Obj *w = find(s, want, off, key);
    if (o && w && o->name && w->name && *o->name == *w->name) return true;
    if (!o || !o->name) return false;
    auto eb = extBases().find(*o->name);
    if (eb != extBases().end())
        if (auto *g = M.getNamedGlobal(eb->second)) return typeMatches(s, addrOfGV(g), want, adj);
    E vt = readObj(o, 0, 8);
    if (!vt->isConst()) return false;
    const Obj *vo = find(s, vt->c, off, key);
    std::string vn = vo && vo->name ? *vo->name : "";
    if (vn.find("si_class_type_info") != std::string::npos) {
        E b = readObj(o, 16, 8);
        return b->isConst() && typeMatches(s, b->c, want, adj);
    }
    if (vn.find("vmi_class_type_info") != std::string::npos) {
        E n = readObj(o, 20, 4);
        for (unsigned i = 0; i < n->c; i++) {
            E b = readObj(o, 24 + 16 * i, 8), fl = readObj(o, 32 + 16 * i, 8);
            uint64_t a2 = 0;
            if (b->isConst() && typeMatches(s, b->c, want, a2)) { adj = a2 + ((int64_t)fl->c >> 8); return true; }
        }
    }
    return false;
}
Exec::R Exec::unwind(State &s, uint64_t exc)
{
    E ti;
    if (!load(s, mkConst(exc - 64, 64), 8, ti)) return R::Kill;
    uint64_t tinfo;
    if (!concretize(s, ti, tinfo)) return R::Kill;
    // phase one: is there a handler at all?
    auto &frs = fiberOf(s)->frames;
    bool handled = false;
    for (size_t i = frs.size(); i-- > 0 && !handled;) {
        if (frs[i]->marker) break;
        auto *inv = dyn_cast<InvokeInst>(frs[i]->fn->code[frs[i]->pc].I);
        if (!inv) continue;
        auto *lp = inv->getLandingPadInst();
        for (unsigned c = 0; c < lp->getNumClauses() && !handled; c++) {
            if (lp->isCatch(c)) {
                auto *cl = lp->getClause(c)->stripPointerCasts();
                uint64_t adj = 0;
                if (isa<ConstantPointerNull>(cl)) handled = true;
                else if (auto *g = dyn_cast<GlobalVariable>(cl)) handled = typeMatches(s, tinfo, addrOfGV(g), adj);
            } else handled = true;
        }
    }
    if (!handled) {
        uint64_t off;
        uint32_t key;
        const Obj *o = find(s, tinfo, off, key);
        violation(s, mkTrue(), "exception", std::string("uncaught exception ") + (o && o->name ? demangle(*o->name) : "?"));
        return R::Kill;
    }
    for (;;) {
        const Frame *f = topc(s);
        const DI &d = f->fn->code[f->pc];
        if (auto *inv = dyn_cast<InvokeInst>(d.I)) {
            auto *lp = inv->getLandingPadInst();
            uint64_t sel = 0;
            bool enter = lp->isCleanup();
            for (unsigned c = 0; c < lp->getNumClauses(); c++) {
                if (lp->isCatch(c)) {
                    auto *cl = lp->getClause(c)->stripPointerCasts();
                    if (isa<ConstantPointerNull>(cl)) { enter = true; sel = 1; break; }
                    auto *g = dyn_cast<GlobalVariable>(cl);
                    uint64_t adj = 0;
                    if (g && typeMatches(s, tinfo, addrOfGV(g), adj)) { enter = true; sel = (addrOfGV(g) >> 20) & 0x7fffffff; break; }
                } else { enter = true; sel = (uint64_t)-1; break; }
            }
            if (enter) {
                BasicBlock *lb = inv->getUnwindDest();
                jump(s, lb);
                Frame *nf = top(s);
                V v;
                v.agg = std::make_shared<std::vector<V>>();
                v.agg->push_back(mkConst(exc, 64));
                v.agg->push_back(mkConst(sel, 32));
                nf->regs[nf->fn->slot[lp]] = v;
                return R::Next;
            }
        }
        popFrame(s);
    }
}

// ---------------------------------------------------------------- instructions

Exec::R Exec::step1(State &s)
{
    nInstr++;
    if (++s.segInstr > opt.maxSegInstr) {
        violation(s, mkTrue(), "livelock", "a thread runs forever without reaching a scheduling point");
        return R::Kill;
    }
    if ((nInstr & 0x3fff) == 0) checkTime();
    Frame *f = top(s);
    const DI &d = f->fn->code[f->pc];
    auto A = [&](unsigned i) { return valE(s, f, d.ops[i]); };
    auto set = [&](const V &v) { f->regs[d.dst] = v; f->pc++; return R::Next; };
    switch (d.op) {
    case Instruction::Add: return set(mkAdd(A(0), A(1)));
    case Instruction::Sub: return set(mkSub(A(0), A(1)));
    case Instruction::Mul: return set(mkMul(A(0), A(1)));
    case Instruction::And: return set(mkAnd(A(0), A(1)));
    case Instruction::Or: return set(mkOr(A(0), A(1)));
    case Instruction::Xor: return set(mkXor(A(0), A(1)));
    case Instruction::Shl: return set(mkBin(K::Shl, A(0), A(1)));
    case Instruction::LShr: return set(mkBin(K::LShr, A(0), A(1)));
    case Instruction::AShr: return set(mkBin(K::AShr, A(0), A(1)));
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        E y = A(1), z = mkEq(y, mkConst(0, y->w));
        std::shared_ptr<Model> m;
        if (feasible(s, z)) {
            violation(s, z, "arith", "division by zero");
            if (!feasible(s, mkNot(z), &m)) return R::Kill;
            assumeCond(s, mkNot(z), m);
        }
        f = top(s);
        K k = d.op == Instruction::UDiv ? K::UDiv : d.op == Instruction::SDiv ? K::SDiv : d.op == Instruction::URem ? K::URem : K::SRem;
        return set(mkBin(k, A(0), y));
    }
    case Instruction::ICmp: {
        auto *ic = cast<ICmpInst>(d.I);
        E x = A(0), y = A(1);
        switch (ic->getPredicate()) {
        case CmpInst::ICMP_EQ: return set(mkEq(x, y));
        case CmpInst::ICMP_NE: return set(mkNot(mkEq(x, y)));
        case CmpInst::ICMP_ULT: return set(mkBin(K::Ult, x, y));
        case CmpInst::ICMP_ULE: return set(mkBin(K::Ule, x, y));
        case CmpInst::ICMP_UGT: return set(mkBin(K::Ult, y, x));
        case CmpInst::ICMP_UGE: return set(mkBin(K::Ule, y, x));
        case CmpInst::ICMP_SLT: return set(mkBin(K::Slt, x, y));
        case CmpInst::ICMP_SLE: return set(mkBin(K::Sle, x, y));
        case CmpInst::ICMP_SGT: return set(mkBin(K::Slt, y, x));
        case CmpInst::ICMP_SGE: return set(mkBin(K::Sle, y, x));
        default: unsupported(s, "icmp");
        }
    }
    case Instruction::Trunc: return set(mkExtract(A(0), 0, d.w));
    case Instruction::ZExt: return set(mkZExt(A(0), d.w));
    case Instruction::SExt: return set(mkSExt(A(0), d.w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: return set(mkZExt(A(0), d.w));
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: return set(val(s, f, d.ops[0]));
    case Instruction::Select: {
        E c = A(0);
        return set(c->isConst() ? val(s, f, d.ops[c->c ? 1 : 2]) : mergeV(c, val(s, f, d.ops[1]), val(s, f, d.ops[2])));
    }
    case Instruction::GetElementPtr: {
        E a = mkAdd(A(0), mkConst(d.gepConst, 64));
        for (auto &p : d.gepVar) a = mkAdd(a, mkMul(mkSExt(valE(s, f, p.first), 64), mkConst(p.second, 64)));
        return set(a);
    }
    case Instruction::ExtractValue: {
        V v = val(s, f, d.ops[0]);
        for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) v = V((*v.agg)[i]);
        return set(v);
    }
    case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(d.I);
        V base = val(s, f, d.ops[0]), x = val(s, f, d.ops[1]);
        std::function<V(const V &, ArrayRef<unsigned>)> go = [&](const V &b, ArrayRef<unsigned> ix) -> V {
            if (ix.empty()) return x;
            V r;
            r.agg = std::make_shared<std::vector<V>>(*b.agg);
            (*r.agg)[ix[0]] = go((*b.agg)[ix[0]], ix.drop_front());
            return r;
        };
        return set(go(base, iv->getIndices()));
    }
    case Instruction::Alloca: {
        auto *al = cast<AllocaInst>(d.I);
        uint64_t n = 1;
        if (al->isArrayAllocation()) { if (!concretize(s, A(0), n)) return R::Kill; f = top(s); }
        Fiber *fb = fiberOf(s).mut();
        f = fb->frames.back().mut();
        uint32_t key = mkKey(2, fb->id, fb->stackTop++);
        Obj *o = new Obj;
        o->base = (uint64_t)key << 20;
        o->size = std::max<uint64_t>(1, DL.getTypeAllocSize(al->getAllocatedType()) * n);
        o->live = mkTrue();
        o->kind = ObjKind::Stack;
        s.mem.put(key, o);
        f->allocas.push_back(key);
        f->regs[d.dst] = mkConst(o->base, 64);
        f->pc++;
        return R::Next;
    }
    case Instruction::Load: {
        V v;
        if (!loadTy(s, A(0), d.I->getType(), v)) return R::Kill;
        f = top(s);
        return set(v);
    }
    case Instruction::Store: {
        auto *st = cast<StoreInst>(d.I);
        if (!storeTy(s, A(1), val(s, f, d.ops[0]), st->getValueOperand()->getType())) return R::Kill;
        top(s)->pc++;
        return R::Next;
    }
    case Instruction::Fence: f->pc++; return R::Next;
    case Instruction::AtomicRMW: {
        auto *rm = cast<AtomicRMWInst>(d.I);
        E p = A(0), x = A(1), old;
        unsigned bytes = (x->w + 7) / 8;
        if (!load(s, p, bytes, old)) return R::Kill;
        old = mkExtract(old, 0, x->w);
        E nv = nullptr;
        switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = mkAdd(old, x); break;
        case AtomicRMWInst::Sub: nv = mkSub(old, x); break;
        case AtomicRMWInst::And: nv = mkAnd(old, x); break;
        case AtomicRMWInst::Or: nv = mkOr(old, x); break;
        case AtomicRMWInst::Xor: nv = mkXor(old, x); break;
        case AtomicRMWInst::Nand: nv = mkNot(mkAnd(old, x)); break;
        case AtomicRMWInst::Max: nv = mkIte(mkBin(K::Slt, old, x), x, old); break;
        case AtomicRMWInst::Min: nv = mkIte(mkBin(K::Slt, x, old), x, old); break;
        case AtomicRMWInst::UMax: nv = mkIte(mkBin(K::Ult, old, x), x, old); break;
        case AtomicRMWInst::UMin: nv = mkIte(mkBin(K::Ult, x, old), x, old); break;
        default: unsupported(s, "atomicrmw");
        }
        if (!store(s, p, nv, bytes)) return R::Kill;
        f = top(s);
        return set(old);
    }
    case Instruction::AtomicCmpXchg: {
        E p = A(0), cmp = A(1), nw = A(2), old;
        unsigned bytes = (cmp->w + 7) / 8;
        if (!load(s, p, bytes, old)) return R::Kill;
        old = mkExtract(old, 0, cmp->w);
        E eq = mkEq(old, cmp);
        if (!store(s, p, mkIte(eq, nw, old), bytes)) return R::Kill;
        V r;
        r.agg = std::make_shared<std::vector<V>>();
        r.agg->push_back(old);
        r.agg->push_back(eq);
        f = top(s);
        return set(r);
    }
    case Instruction::Br: {
        auto *br = cast<BranchInst>(d.I);
        if (br->isUnconditional()) { jump(s, br->getSuccessor(0)); return R::Next; }
        int t = branchOn(s, A(0));
        jump(s, br->getSuccessor(t ? 0 : 1));
        return R::Next;
    }
    case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(d.I);
        E c = A(0);
        if (c->isConst()) {
            BasicBlock *to = sw->getDefaultDest();
            for (auto &cs : sw->cases())
                if (cs.getCaseValue()->getZExtValue() == c->c) { to = cs.getCaseSuccessor(); break; }
            jump(s, to);
            return R::Next;
        }
        for (auto &cs : sw->cases()) {
            int t = branchOn(s, mkEq(c, mkConst(cs.getCaseValue()->getZExtValue(), c->w)));
            if (t) { jump(s, cs.getCaseSuccessor()); return R::Next; }
        }
        jump(s, sw->getDefaultDest());
        return R::Next;
    }
    case Instruction::Ret: {
        V r;
        if (!d.ops.empty()) r = val(s, f, d.ops[0]);
        return doReturn(s, r);
    }
    case Instruction::Resume: {
        V v = val(s, f, d.ops[0]);
        uint64_t exc;
        if (!concretize(s, (*v.agg)[0].e, exc)) return R::Kill;
        popFrame(s);
        return unwind(s, exc);
    }
    case Instruction::LandingPad: f->pc++; return R::Next; // value already set by unwind
    case Instruction::Unreachable:
        violation(s, mkTrue(), "unreachable", "execution reached undefined behaviour (unreachable)");
        return R::Kill;
    case Instruction::Call: case Instruction::Invoke: return doCall(s, d);
    case Instruction::FNeg: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt:
    case Instruction::FPTrunc: case Instruction::FCmp: {
        // floating point only on concrete values
        double in[2] = {0, 0};
        Type *ot = d.I->getOperand(0)->getType();
        for (unsigned i = 0; i < d.ops.size() && i < 2; i++) {
            uint64_t u;
            if (!concretize(s, A(i), u)) return R::Kill;
            f = top(s);
            if (ot->isDoubleTy()) memcpy(&in[i], &u, 8);
            else if (ot->isFloatTy()) { float q; uint32_t u32 = u; memcpy(&q, &u32, 4); in[i] = q; }
            else if (d.op == Instruction::SIToFP) in[i] = (double)sextw(u, ot->getIntegerBitWidth());
            else in[i] = (double)u;
        }
        double r = 0;
        switch (d.op) {
        case Instruction::FNeg: r = -in[0]; break;
        case Instruction::FAdd: r = in[0] + in[1]; break;
        case Instruction::FSub: r = in[0] - in[1]; break;
        case Instruction::FMul: r = in[0] * in[1]; break;
        case Instruction::FDiv: r = in[0] / in[1]; break;
        case Instruction::FPToSI: return set(mkConst((uint64_t)(int64_t)in[0], d.w));
        case Instruction::FPToUI: return set(mkConst((uint64_t)in[0], d.w));
        case Instruction::FCmp: {
            bool b;
            switch (cast<FCmpInst>(d.I)->getPredicate()) {
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: b = in[0] == in[1]; break;
            case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: b = in[0] != in[1]; break;
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: b = in[0] < in[1]; break;
            case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: b = in[0] <= in[1]; break;
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: b = in[0] > in[1]; break;
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: b = in[0] >= in[1]; break;
            default: unsupported(s, "fcmp");
            }
            return set(mkBool(b));
        }
        default: r = in[0];
        }
        if (d.I->getType()->isFloatTy()) { float q = (float)r; uint32_t u; memcpy(&u, &q, 4); return set(mkConst(u, 32)); }
        uint64_t u;
        memcpy(&u, &r, 8);
        return set(mkConst(u, 64));
    }
    case Instruction::VAArg: default: unsupported(s, std::string("instruction ") + d.I->getOpcodeName());
    }
}

Exec::R Exec::doCall(State &s, const DI &d)
{
    const Frame *f = topc(s);
    auto *cb = cast<CallBase>(d.I);
    if (cb->isInlineAsm()) {
        auto *ia = cast<InlineAsm>(cb->getCalledOperand());
        std::string as = ia->getAsmString();
        if (d.dst < 0 && (as.empty() || as.find("pause") != std::string::npos || as == "nop")) { finishCall(s, V()); return R::Next; }
        unsupported(s, "inline assembly '" + as + "'");
    }
    Function *callee = d.callee;
    std::vector<V> args;
    unsigned na = cb->arg_size();
    args.reserve(na);
    for (unsigned i = 0; i < na; i++) args.push_back(val(s, f, d.ops[i]));
    if (!callee) {
        E fp = valE(s, f, d.ops[na]);
        uint64_t a;
        if (!concretize(s, fp, a)) return R::Kill;
        auto it = addrFn.find(a);
        if (it == addrFn.end()) {
            violation(s, mkTrue(), "memory", "call through an invalid function pointer");
            return R::Kill;
        }
        callee = it->second;
    }
    if (callee->isIntrinsic()) return intrinsic(s, d, args);
    auto &ht = handlerTable();
    DI &dm = const_cast<DI &>(d);
    int h;
    if (d.callee && d.handler >= 0) h = d.handler;
    else {
        auto it = ht.find(callee->getName().str());
        h = it == ht.end() ? H_NONE : it->second;
        if (d.callee) dm.handler = h;
    }
    if (h != H_NONE) return callHandler(s, d, callee->getName().str(), args);
    // byval arguments are copied into the callee's stack
    for (unsigned i = 0; i < na; i++)
        if (cb->isByValArgument(i)) {
            uint64_t n = DL.getTypeAllocSize(cb->getParamByValType(i));
            Fiber *fb = fiberOf(s).mut();
            uint32_t key = mkKey(2, fb->id, fb->stackTop++);
            Obj *o = new Obj;
            o->base = (uint64_t)key << 20;
            o->size = n;
            o->live = mkTrue();
            o->kind = ObjKind::Stack;
            s.mem.put(key, o);
            top(s)->allocas.push_back(key);
            if (!copyMem(s, mkConst(o->base, 64), args[i].e, n)) return R::Kill;
            args[i] = mkConst(o->base, 64);
        }
    pushFrame(s, callee, args, d.gid);
    return R::Next;
}

Exec::R Exec::intrinsic(State &s, const DI &d, std::vector<V> &a)
{
    auto *cb = cast<CallBase>(d.I);
    auto fin = [&](const V &v) { finishCall(s, v); return R::Next; };
    Intrinsic::ID id = cb->getCalledFunction() ? cb->getCalledFunction()->getIntrinsicID() : Intrinsic::not_intrinsic;
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        uint64_t n;
        if (!concretize(s, a[2].e, n)) return R::Kill;
        if (!copyMem(s, a[0].e, a[1].e, n)) return R::Kill;
        return fin(V());
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        uint64_t n;
        if (!concretize(s, a[2].e, n)) return R::Kill;
        if (!setMem(s, a[0].e, a[1].e, n)) return R::Kill;
        return fin(V());
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_end:
    case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation:
        return fin(V());
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return fin(mkConst(0, 64));
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation:
    case Intrinsic::expect: case Intrinsic::expect_with_probability:
        return fin(a[0]);
    case Intrinsic::objectsize: return fin(mkConst(~0ull, d.w));
    case Intrinsic::is_constant: return fin(mkFalse());
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, mkTrue(), "trap", "trap instruction"); return R::Kill;
    case Intrinsic::eh_typeid_for: {
        auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
        return fin(mkConst(g ? (addrOfGV(g) >> 20) & 0x7fffffff : 1, 32));
    }
    case Intrinsic::umin: return fin(mkIte(mkBin(K::Ult, a[0].e, a[1].e), a[0].e, a[1].e));
    case Intrinsic::umax: return fin(mkIte(mkBin(K::Ult, a[0].e, a[1].e), a[1].e, a[0].e));
    case Intrinsic::smin: return fin(mkIte(mkBin(K::Slt, a[0].e, a[1].e), a[0].e, a[1].e));
    case Intrinsic::smax: return fin(mkIte(mkBin(K::Slt, a[0].e, a[1].e), a[1].e, a[0].e));
    case Intrinsic::abs: return fin(mkIte(mkBin(K::Slt, a[0].e, mkConst(0, d.w)), mkSub(mkConst(0, d.w), a[0].e), a[0].e));
    case Intrinsic::bswap: {
        E r = nullptr;
        for (unsigned i = 0; i < d.w; i += 8) { E b = mkExtract(a[0].e, i, 8); r = r ? mkConcat(r, b) : b; }
        return fin(r);
    }
    case Intrinsic::ctpop: {
        E r = mkConst(0, d.w);
        for (unsigned i = 0; i < d.w; i++) r = mkAdd(r, mkZExt(mkExtract(a[0].e, i, 1), d.w));
        return fin(r);
    }
    case Intrinsic::ctlz: {
        E r = mkConst(d.w, d.w);
        for (unsigned i = 0; i < d.w; i++) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(d.w - 1 - i, d.w), r);
        return fin(r);
    }
    case Intrinsic::cttz: {
        E r = mkConst(d.w, d.w);
        for (unsigned i = d.w; i-- > 0;) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, d.w), r);
        return fin(r);
    }
    case Intrinsic::usub_sat: return fin(mkIte(mkBin(K::Ult, a[0].e, a[1].e), mkConst(0, d.w), mkSub(a[0].e, a[1].e)));
    case Intrinsic::uadd_sat: { E r = mkAdd(a[0].e, a[1].e); return fin(mkIte(mkBin(K::Ult, r, a[0].e), mkConst(~0ull, d.w), r)); }
    case Intrinsic::fshl: {
        if (!a[2].e->isConst()) unsupported(s, "fshl");
        unsigned w = d.w, k = a[2].e->c % w;
        if (!k) return fin(a[0]);
        return fin(mkOr(mkBin(K::Shl, a[0].e, mkConst(k, w)), mkBin(K::LShr, a[1].e, mkConst(w - k, w))));
    }
    case Intrinsic::fshr: {
        if (!a[2].e->isConst()) unsupported(s, "fshr");
        unsigned w = d.w, k = a[2].e->c % w;
        if (!k) return fin(a[1]);
        return fin(mkOr(mkBin(K::Shl, a[0].e, mkConst(w - k, w)), mkBin(K::LShr, a[1].e, mkConst(k, w))));
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        E x = a[0].e, y = a[1].e, r, o;
        unsigned w = x->w;
        E zero = mkConst(0, w);
        if (id == Intrinsic::uadd_with_overflow) { r = mkAdd(x, y); o = mkBin(K::Ult, r, x); }
        else if (id == Intrinsic::usub_with_overflow) { r = mkSub(x, y); o = mkBin(K::Ult, x, y); }
        else if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow) {
            bool add = id == Intrinsic::sadd_with_overflow;
            r = add ? mkAdd(x, y) : mkSub(x, y);
            E sx = mkBin(K::Slt, x, zero), sy = mkBin(K::Slt, y, zero), sr = mkBin(K::Slt, r, zero);
            if (!add) sy = mkNot(sy);
            o = mkAnd(mkEq(sx, sy), mkNot(mkEq(sx, sr)));
        } else if (id == Intrinsic::umul_with_overflow) {
            r = mkMul(x, y);
            o = mkAnd(mkNot(mkEq(y, zero)), mkNot(mkEq(mkBin(K::UDiv, r, mkIte(mkEq(y, zero), mkConst(1, w), y)), x)));
        } else {
            if (w > 32) {
                // exact check by division for 64-bit operands
                r = mkMul(x, y);
                E ys = mkIte(mkEq(y, zero), mkConst(1, w), y);
                E mn = mkConst(1ull << (w - 1), w), m1 = mkConst(~0ull, w);
                o = mkAnd(mkNot(mkEq(y, zero)), mkOr(mkNot(mkEq(mkBin(K::SDiv, r, ys), x)), mkAnd(mkEq(y, m1), mkEq(x, mn))));
            } else {
                E p = mkMul(mkSExt(x, 64), mkSExt(y, 64));
                r = mkExtract(p, 0, w);
                o = mkNot(mkEq(mkSExt(r, 64), p));
            }
        }
        V v;
        v.agg = std::make_shared<std::vector<V>>();
        v.agg->push_back(r);
        v.agg->push_back(o);
        return fin(v);
    }
    case Intrinsic::vastart: {
        // System V va_list: spill the variadic arguments and point overflow_arg_area at them
        const Frame *f = topc(s);
        Fiber *fb = fiberOf(s).mut();
        uint32_t key = mkKey(2, fb->id, fb->stackTop++);
        Obj *o = new Obj;
        o->base = (uint64_t)key << 20;
        o->size = std::max<size_t>(8, f->varargs.size() * 8);
        o->live = mkTrue();
        o->kind = ObjKind::Stack;
        for (size_t i = 0; i < f->varargs.size(); i++) o->set(i, mkZExt(f->varargs[i].e, 64));
        s.mem.put(key, o);
        top(s)->allocas.push_back(key);
        E va = a[0].e;
        if (!store(s, va, mkConst(48, 32), 4) || !store(s, mkAdd(va, mkConst(4, 64)), mkConst(304, 32), 4) ||
            !store(s, mkAdd(va, mkConst(8, 64)), mkConst(o->base, 64), 8) || !store(s, mkAdd(va, mkConst(16, 64)), mkConst(0, 64), 8))
            return R::Kill;
        return fin(V());
    }
    case Intrinsic::vaend: return fin(V());
    case Intrinsic::vacopy: if (!copyMem(s, a[0].e, a[1].e, 24)) return R::Kill; return fin(V());
    default: break;
    }
    unsupported(s, "intrinsic " + cb->getCalledFunction()->getName().str());
}

Exec::R Exec::schedPoint(State &s, int kind)
{
    if (s.inPred) { finishCall(s, V()); return R::Next; }
    if (s.threads[s.cur]->atomicDepth && kind != SP_AWAIT) { finishCall(s, V()); return R::Next; }
    int others = 0;
    for (size_t i = 0; i < s.threads.size(); i++)
        if ((int)i != s.cur && s.threads[i]->status != TS::Done) others++;
    if (!others && kind == SP_VISIBLE) {
        record(s, 'T', mkConst(s.cur, 64), kind);
        finishCall(s, V());
        return R::Next;
    }
    s.spKind = kind;
    return R::Stop;
}

Exec::R Exec::callHandler(State &s, const DI &d, const std::string &name, std::vector<V> &a)
{
    auto fin = [&](const V &v) { finishCall(s, v); return R::Next; };
    Type *rt = d.I->getType();
    int h = handlerTable().at(name);
    switch (h) {
    case H_NONDET: {
        // uint64_t vf_nondet(const char *name, int bits)
        uint64_t bits;
        if (!concretize(s, a[1].e, bits)) return R::Kill;
        std::string nm = cstr(s, a[0].e);
        uint64_t hsh = 5381;
        for (char c : nm) hsh = hsh * 33 + (unsigned char)c;
        uint32_t n = bump(s, mixh(hsh, 0x6e6f6e64));
        E v = mkVar("n_" + nm + "_" + std::to_string(s.threads[s.cur]->fiber) + "_" + std::to_string(n) + "_w" + std::to_string(bits), bits);
        E r = mkZExt(v, 64);
        record(s, 'N', r, bits);
        return fin(r);
    }
    case H_ASSUME: {
        E c = mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w)));
        std::shared_ptr<Model> m;
        if (!feasible(s, c, &m)) return R::Kill;
        assumeCond(s, c, m);
        return fin(V());
    }
    case H_ASSERT: {
        nAsserts++;
        E c = mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w)));
        std::string msg = cstr(s, a[1].e);
        assertMsgs.insert(msg);
        E bad = mkNot(c);
        std::shared_ptr<Model> m;
        if (!bad->isFalse() && feasible(s, bad, &m)) {
            violation(s, bad, "assert", msg);
            if (!feasible(s, c, &m)) return R::Kill;
            assumeCond(s, c, m);
        }
        return fin(V());
    }
    case H_FAIL: violation(s, mkTrue(), "assert", cstr(s, a[0].e)); return R::Kill;
    case H_KILLPATH: return R::Kill;
    case H_CONCRETE: {
        uint64_t v;
        if (!concretize(s, a[0].e, v)) return R::Kill;
        return fin(mkConst(v, a[0].e->w));
    }
    case H_SYMBOLIC_ENGINE: return fin(mkConst(1, d.w));
    case H_VISIBLE: case H_MEM: {
        // vf_visible(ptr, kind): atomics, unless private. vf_mem(ptr, kind): only watched memory
        std::vector<std::pair<uint64_t, E>> lv;
        E p = a[0].e;
        if (p->iteConst) leaves(p, lv);
        else { uint64_t v; if (!concretize(s, p, v)) return R::Kill; lv.push_back({v, mkTrue()}); }
        auto &rg = h == H_MEM ? s.watch : s.priv;
        E in = mkFalse();
        for (auto &l : lv)
            for (auto &r : rg)
                if (l.first >= r.first && l.first < r.second) { in = mkOr(in, l.second); break; }
        if (h == H_VISIBLE)
            for (auto &l : lv)
                for (auto &r : s.quiet)
                    if (l.first >= r.first && l.first < r.second) { in = mkOr(in, l.second); break; }
        E vis = h == H_MEM ? in : mkNot(in);
        if (!branchOn(s, vis)) return fin(V());
        static bool spStat = getenv("SYMX_SP");
        if (spStat) fprintf(stderr, "SP %s\n", where(s).c_str());
        return schedPoint(s, SP_VISIBLE);
    }
    case H_YIELD: {
        if (!s.inPred && !s.threads[s.cur]->atomicDepth) {
            Thread *t = s.threads[s.cur].mut();
            if (s.privDirty || t->progress) { t->progress = false; s.privDirty = false; }
            else if (t->yields <= opt.yieldBudget) t->yields++;
        }
        return schedPoint(s, SP_YIELD);
    }
    case H_MERGE:
        if (s.inPred) return fin(V());
        s.spKind = SP_MERGE;
        return R::Stop;
    case H_AWAIT: {
        if (s.inPred) unsupported(s, "vf_await inside a predicate");
        uint64_t fa;
        if (!concretize(s, a[0].e, fa)) return R::Kill;
        Thread *t = s.threads[s.cur].mut();
        t->status = TS::Await;
        t->pred = addrFn.at(fa);
        t->predArg = a[1];
        return schedPoint(s, SP_AWAIT);
    }
    case H_JOINALL: {
        Thread *t = s.threads[s.cur].mut();
        t->status = TS::JoinAll;
        return schedPoint(s, SP_AWAIT);
    }
    case H_SPAWN: {
        uint64_t fa;
        if (!concretize(s, a[0].e, fa)) return R::Kill;
        int id = s.threads.size();
        if (id >= 12) unsupported(s, "too many threads");
        Thread *t = new Thread;
        t->fiber = t->home = id;
        t->name = std::to_string(id);
        Fiber *fb = new Fiber;
        fb->id = id;
        if ((int)s.fibers.size() <= id) s.fibers.resize(16);
        s.fibers[id] = FiberRef(fb);
        s.threads.push_back(ThreadRef(t));
        int cur = s.cur;
        s.cur = id;
        Function *F = addrFn.at(fa);
        pushFrame(s, F, {a[1]}, 1000 + id);
        for (auto *g : tlsVars) { // thread-local storage
            Obj *o = new Obj;
            uint32_t key = mkKey(2, 200 + id, tlsIdx[g]);
            o->base = (uint64_t)key << 20;
            o->size = std::max<uint64_t>(1, DL.getTypeAllocSize(g->getValueType()));
            o->kind = ObjKind::Tls;
            o->zero = true;
            o->live = mkTrue();
            if (g->hasInitializer()) writeInit(o, 0, g->getInitializer());
            s.mem.put(key, o);
        }
        s.cur = cur;
        record(s, 'S', mkConst(id, 64), 0);
        s.dirty = true;
        return fin(d.w ? V(mkConst(id, d.w)) : V());
    }
    case H_DAEMON: s.threads[s.cur].mut()->daemon = true; return fin(V());
    case H_TID: return fin(mkConst(s.cur, d.w));
    case H_THREADDONE: {
        uint64_t t;
        if (!concretize(s, a[0].e, t)) return R::Kill;
        return fin(mkConst(t < s.threads.size() && s.threads[t]->status == TS::Done, d.w));
    }
    case H_EXITTHREAD: {
        while (!fiberOf(s)->frames.empty()) popFrame(s);
        Thread *t = s.threads[s.cur].mut();
        t->status = TS::Done;
        t->atomicDepth = 0;
        s.spKind = SP_EXIT;
        s.dirty = true;
        return R::Stop;
    }
    case H_ATOMB: s.threads[s.cur].mut()->atomicDepth++; return fin(V());
    case H_ATOME: s.threads[s.cur].mut()->atomicDepth--; return fin(V());
    case H_PRIV: case H_QUIET: case H_WATCH: case H_KEY: {
        uint64_t p, n;
        if (!concretize(s, a[0].e, p) || !concretize(s, a[1].e, n)) return R::Kill;
        auto &v = h == H_PRIV ? s.priv : h == H_QUIET ? s.quiet : h == H_KEY ? s.keys : s.watch;
        auto r = std::make_pair(p, p + n);
        if (std::find(v.begin(), v.end(), r) == v.end()) { v.push_back(r); std::sort(v.begin(), v.end()); }
        return fin(V());
    }
    case H_REACH: reached.insert(cstr(s, a[0].e)); return fin(V());
    case H_OBSERVE: if (!s.inPred) record(s, 'O', mkZExt(a[0].e, 64), 0); return fin(V());
    case H_MALLOC: case H_CALLOC: {
        uint64_t n;
        if (!concretize(s, a[0].e, n)) return R::Kill;
        return fin(mkConst(heapAlloc(s, n, h == H_CALLOC, ObjKind::Heap, 0), 64));
    }
    case H_MMAP: {
        uint64_t n;
        if (!concretize(s, a[0].e, n)) return R::Kill;
        return fin(mkConst(heapAlloc(s, n, true, ObjKind::Map, 1), 64));
    }
    case H_ISLIVE: { // bool vf_is_live(ptr): is this the base of a live heap object?
        std::vector<std::pair<uint64_t, E>> lv;
        if (a[0].e->iteConst) leaves(a[0].e, lv);
        else { uint64_t v; if (!concretize(s, a[0].e, v)) return R::Kill; lv.push_back({v, mkTrue()}); }
        E r = mkFalse();
        for (auto &l : lv) {
            uint64_t off;
            uint32_t key;
            const Obj *o = find(s, l.first, off, key);
            if (o) r = mkOr(r, mkAnd(l.second, o->live));
        }
        return fin(mkZExt(r, d.w));
    }
    case H_FREE: case H_MUNMAP: {
        E p = a[0].e;
        std::vector<std::pair<uint64_t, E>> lv;
        if (p->iteConst) leaves(p, lv);
        else { uint64_t v; if (!concretize(s, p, v)) return R::Kill; lv.push_back({v, mkTrue()}); }
        for (auto &l : lv) {
            if (l.first == 0) continue;
            uint64_t off;
            uint32_t key;
            const Obj *o = find(s, l.first, off, key);
            ObjKind want = h == H_FREE ? ObjKind::Heap : ObjKind::Map;
            if (!o || off != 0 || o->kind != want) {
                if (feasible(s, l.second)) { violation(s, l.second, "memory", "release of an invalid pointer"); return R::Kill; }
                continue;
            }
            E dead = mkAnd(l.second, mkNot(o->live));
            if (!dead->isFalse() && feasible(s, dead)) { violation(s, dead, "memory", "memory released twice"); return R::Kill; }
            Obj *om = s.mem.mut(key);
            om->live = mkAnd(om->live, mkNot(l.second));
            if (om->live->isFalse()) { om->w.clear(); om->sparse.clear(); }
            s.dirty = true;
        }
        return fin(d.w ? V(mkConst(0, d.w)) : V());
    }
    case H_MEMCPY: {
        uint64_t n;
        if (!concretize(s, a[2].e, n)) return R::Kill;
        if (!copyMem(s, a[0].e, a[1].e, n)) return R::Kill;
        return fin(a[0]);
    }
    case H_MEMSET: {
        uint64_t n;
        if (!concretize(s, a[2].e, n)) return R::Kill;
        if (!setMem(s, a[0].e, mkExtract(a[1].e, 0, 8), n)) return R::Kill;
        return fin(a[0]);
    }
    case H_MEMCMP: {
        uint64_t n;
        if (!concretize(s, a[2].e, n)) return R::Kill;
        E r = mkConst(0, 32);
        for (uint64_t i = n; i-- > 0;) {
            E x, y;
            if (!load(s, mkAdd(a[0].e, mkConst(i, 64)), 1, x) || !load(s, mkAdd(a[1].e, mkConst(i, 64)), 1, y)) return R::Kill;
            r = mkIte(mkEq(x, y), r, mkSub(mkZExt(x, 32), mkZExt(y, 32)));
        }
        return fin(r);
    }
    case H_STRLEN: {
        for (uint64_t i = 0;; i++) {
            E x;
            if (!load(s, mkAdd(a[0].e, mkConst(i, 64)), 1, x)) return R::Kill;
            uint64_t v;
            if (!concretize(s, x, v)) return R::Kill;
            if (!v) return fin(mkConst(i, 64));
        }
    }
    case H_ABORT: violation(s, mkTrue(), "abort", "abort called"); return R::Kill;
    case H_TERMINATE: violation(s, mkTrue(), "terminate", "std::terminate called"); return R::Kill;
    case H_PUREVIRT: violation(s, mkTrue(), "memory", "pure virtual call"); return R::Kill;
    case H_BADCAST: violation(s, mkTrue(), "exception", "bad_cast"); return R::Kill;
    case H_NOOP: return fin(rt->isVoidTy() ? V() : (a.empty() ? V(mkConst(0, d.w)) : a[0]));
    case H_ZERO: return fin(rt->isVoidTy() ? V() : V(mkConst(0, d.w)));
    case H_CXA_ALLOC: {
        uint64_t n;
        if (!concretize(s, a[0].e, n)) return R::Kill;
        // header of 128 bytes; type info lives at object - 64
        const Hist *h0 = s.hist;
        uint64_t b = heapAlloc(s, n + 128, true, ObjKind::Heap, 2);
        s.hist = h0; // not an allocation of the program
        return fin(mkConst(b + 128, 64));
    }
    case H_CXA_FREE: return fin(V());
    case H_CXA_THROW: {
        uint64_t exc;
        if (!concretize(s, a[0].e, exc)) return R::Kill;
        if (!store(s, mkConst(exc - 64, 64), a[1].e, 8)) return R::Kill;
        return unwind(s, exc);
    }
    case H_CXA_BEGIN: fiberOf(s).mut()->caught.push_back(a[0].e); return fin(a[0]);
    case H_CXA_GETPTR: return fin(a[0]);
    case H_CXA_END: {
        Fiber *fb = fiberOf(s).mut();
        if (!fb->caught.empty()) fb->caught.pop_back();
        return fin(V());
    }
    case H_CXA_RETHROW: {
        Fiber *fb = fiberOf(s).mut();
        if (fb->caught.empty()) { violation(s, mkTrue(), "terminate", "rethrow without an exception"); return R::Kill; }
        uint64_t exc;
        if (!concretize(s, fb->caught.back(), exc)) return R::Kill;
        return unwind(s, exc);
    }
    case H_EP_CURRENT: {
        auto &c = fiberOf(s)->caught;
        if (!store(s, a[0].e, c.empty() ? mkConst(0, 64) : c.back(), 8)) return R::Kill;
        return fin(V());
    }
    case H_EP_RETHROW: {
        E p;
        uint64_t exc;
        if (!load(s, a[0].e, 8, p) || !concretize(s, p, exc)) return R::Kill;
        if (!exc) { violation(s, mkTrue(), "terminate", "rethrow of a null exception_ptr"); return R::Kill; }
        return unwind(s, exc);
    }
    case H_EP_COPY: {
        E p;
        if (!load(s, a[1].e, 8, p) || !store(s, a[0].e, p, 8)) return R::Kill;
        return fin(V());
    }
    case H_EP_CTORPTR: if (!store(s, a[0].e, a[1].e, 8)) return R::Kill; return fin(V());
    case H_EP_SWAP: {
        E p, q;
        if (!load(s, a[0].e, 8, p) || !load(s, a[1].e, 8, q) || !store(s, a[0].e, q, 8) || !store(s, a[1].e, p, 8)) return R::Kill;
        return fin(V());
    }
    case H_DYNCAST: {
        uint64_t p, vt;
        E e;
        if (!concretize(s, a[0].e, p)) return R::Kill;
        if (!p) return fin(mkConst(0, 64));
        if (!load(s, mkConst(p, 64), 8, e) || !concretize(s, e, vt)) return R::Kill;
        E ti, ott;
        if (!load(s, mkConst(vt - 8, 64), 8, ti) || !load(s, mkConst(vt - 16, 64), 8, ott)) return R::Kill;
        uint64_t adj = 0;
        if (typeMatches(s, ti->c, a[2].e->c, adj)) return fin(mkConst(p + ott->c + adj, 64));
        return fin(mkConst(0, 64));
    }
    case H_GUARD_ACQ: {
        E g;
        if (!load(s, a[0].e, 1, g)) return R::Kill;
        return fin(mkIte(mkEq(g, mkConst(0, 8)), mkConst(1, 32), mkConst(0, 32)));
    }
    case H_GUARD_REL: if (!store(s, a[0].e, mkConst(1, 8), 1)) return R::Kill; return fin(V());
    case H_THROWSTD: violation(s, mkTrue(), "exception", "standard library error: " + demangle(name)); return R::Kill;
    case H_SWITCHTO: {
        // switch_to(curr, next): curr and next are the register save areas of two contexts
        uint64_t from, to;
        if (!concretize(s, a[0].e, from) || !concretize(s, a[1].e, to)) return R::Kill;
        int cf = s.threads[s.cur]->fiber;
        auto put = [&](uint64_t k, int v) {
            for (auto &p : s.fiberMap) if (p.first == k) { p.second = v; return; }
            s.fiberMap.push_back({k, v});
            std::sort(s.fiberMap.begin(), s.fiberMap.end());
        };
        put(from, cf);
        int tf = -1;
        for (auto &p : s.fiberMap) if (p.first == to) tf = p.second;
        if (!store(s, mkConst(to + 256, 64), mkConst(from, 64), 8)) return R::Kill;
        if (tf < 0) {
            auto it = fiberIds.find(to);
            if (it == fiberIds.end()) it = fiberIds.insert({to, 16 + (int)fiberIds.size()}).first;
            tf = it->second;
            auto taken = [&](int i) { return i >= 190 || (i < (int)s.fibers.size() && s.fibers[i]); };
            if (taken(tf)) // not the same number on every path: costs merging only
                for (tf = 16; taken(tf); tf++)
                    if (tf >= 190) unsupported(s, "too many coroutines");
            if ((int)s.fibers.size() <= tf) s.fibers.resize(tf + 1);
            Fiber *fb = new Fiber;
            fb->id = tf;
            s.fibers[tf] = FiberRef(fb);
            put(to, tf);
            finishCall(s, V()); // the switching fiber continues after the call when resumed
            s.threads[s.cur].mut()->fiber = tf;
            Function *entry = M.getFunction("_ZN5cocpp6co_ctx10real_entryEPS0_");
            if (!entry) unsupported(s, "co_ctx::real_entry not found");
            pushFrame(s, entry, {V(mkConst(to, 64))}, 2000 + tf);
            record(s, 'F', mkConst(tf, 64), to);
            s.dirty = true;
            return R::Next;
        }
        finishCall(s, V());
        s.threads[s.cur].mut()->fiber = tf;
        s.dirty = true;
        if (s.fibers[tf]->frames.empty()) { violation(s, mkTrue(), "memory", "switch to a finished context"); return R::Kill; }
        return R::Next;
    }
    default: unsupported(s, "handler for " + name);
    }
}

// ---------------------------------------------------------------- exploration
void Exec::runWork()
{
    while (!work.empty()) {
        StateP s = std::move(work.back());
        work.pop_back();
        for (;;) {
            R r = step1(*s);
            if (r == R::Next || r == R::Pushed) continue;
            if (r == R::Stop) segOut->push_back(std::move(s));
            break;
        }
    }
}
E Exec::evalPred(State &s, int tid)
{
    StateP c(new State(s));
    c->cur = tid;
    c->inPred = true;
    c->known.clear();
    c->segInstr = 0;
    Thread *t = c->threads[tid].mut();
    Function *F = t->pred;
    V arg = t->predArg;
    pushFrame(*c, F, {arg}, 77, 1);
    std::vector<std::pair<PCRef, E>> res;
    auto *savedP = predOut;
    auto *savedO = segOut;
    std::vector<StateP> dummy;
    predOut = &res;
    segOut = &dummy;
    std::vector<StateP> savedWork;
    savedWork.swap(work);
    PCRef base = s.pc;
    work.push_back(std::move(c));
    runWork();
    savedWork.swap(work);
    predOut = savedP;
    segOut = savedO;
    if (!dummy.empty()) throw Inconclusive{"a predicate reached a scheduling point"};
    E r = mkFalse();
    for (auto &p : res) {
        E cnd = p.second;
        for (PCRef q = p.first; q && q != base && q->depth > (base ? base->depth : 0); q = q->up) cnd = mkAnd(cnd, q->e);
        r = mkOr(r, cnd);
    }
    return r;
}
// Merge policy -shape: states whose heap or global objects hold different
// pointers are not merged, so that pointers stay concrete.
static uint64_t shapeOf(const Obj *o)
{
    if (o->shape) return o->shape;
    uint64_t h = 0x9e3779b97f4a7c15ull ^ o->base;
    auto add = [&](uint32_t i, E e) {
        if (e && e->isConst() && e->c >= (1ull << 20) && e->c < (1ull << 44)) h = mixh(h, mixh(i, e->c));
        else if (e && !e->isConst() && e->iteConst) h = mixh(h, mixh(i, 7));
    };
    if (o->kind != ObjKind::Stack && o->live->isTrue() && !o->readOnly) {
        if (o->big()) for (auto &p : o->sparse) add(p.first, p.second);
        else for (size_t i = 0; i < o->w.size(); i++) add(i, o->w[i]);
    }
    if (!h) h = 1;
    return o->shape = h;
}
static uint64_t shapeOf(const TNode *n)
{
    if (n->shape) return n->shape;
    uint64_t h = 0x51ed27f5;
    for (unsigned i = 0; i < 64; i++) {
        if (n->leaf) { if (n->ob[i]) h = mixh(h, mixh(i, shapeOf(n->ob[i]))); }
        else if (n->ch[i]) h = mixh(h, mixh(i, shapeOf(n->ch[i])));
    }
    if (!h) h = 1;
    return n->shape = h;
}
void Exec::signature(State &s, std::string &out)
{
    auto put = [&](uint64_t v) { out.append((const char *)&v, 8); };
    put(s.threads.size());
    if (opt.maxPreempt >= 0) { put(s.cur); put(s.spKind); put(s.preempts); }
    if (s.spKind == SP_MERGE) put(1000 + s.cur);
    for (auto &t : s.threads) {
        put((uint64_t)t->status | (uint64_t)t->daemon << 8 | (uint64_t)t->yields << 16 | (uint64_t)t->atomicDepth << 24 | (uint64_t)t->fiber << 32 | (uint64_t)t->fresh << 48 | (uint64_t)t->progress << 49);
        put((uint64_t)(uintptr_t)t->pred);
    }
    for (auto &f : s.fibers) {
        if (!f) { put(0); continue; }
        put(f->frames.size() + 1);
        put(f->caught.size());
        for (auto &fr : f->frames) {
            put((uint64_t)(uintptr_t)fr->fn);
            put(fr->pc);
            put(fr->allocas.size());
            if (opt.shape) { // live constants: loop counters, pointers
                const DI &d = fr->fn->code[fr->pc];
                if (isa<CallBase>(d.I))
                    for (int r : d.live) {
                        const V &v = fr->regs[r]; // (none if a suspended fiber points behind its call)
                        if (v.e) put(v.e->isConst() ? v.e->c : 0x5a5a5a5a5a5a5a5aull);
                    }
            }
        }
    }
    for (auto &p : s.fiberMap) { put(p.first); put(p.second); }
    for (auto &p : s.watch) { put(p.first); put(p.second); }
    for (auto &p : s.keys) { // states that differ in a key word are not merged
        put(p.first);
        uint64_t off;
        uint32_t key;
        const Obj *o = find(s, p.first, off, key);
        if (!o) continue;
        put(o->live->isFalse());
        for (uint64_t a = off & ~7ull; a < off + (p.second - p.first) && a < o->size; a += 8) {
            E w = word(o, a / 8);
            put(w->isConst() ? w->c : 0x5a5a5a5a5a5a5a5aull);
        }
    }
    put(0x55);
    if (opt.shape) put(shapeOf(s.mem.root.p));
    for (auto &p : s.priv) { put(p.first); put(p.second); }
}
static ObjRef mergeObj(Exec &, const Obj *a, const Obj *b, E sel, const std::function<E(const Obj *, uint32_t)> &word)
{
    Obj *o = new Obj(*a);
    o->rc = 0;
    o->shape = 0;
    o->live = mkIte(sel, a->live, b->live);
    if (a->live->isFalse() && !b->live->isFalse()) { E l = o->live; *o = *b; o->rc = 0; o->shape = 0; o->live = l; return ObjRef(o); }
    if (b->live->isFalse()) return ObjRef(o);
    if (a->size != b->size) throw Inconclusive{"merging objects of different sizes"};
    if (a->big()) {
        std::map<uint32_t, E> all = a->sparse;
        for (auto &p : b->sparse) all.insert(p);
        for (auto &p : all) o->sparse[p.first] = mkIte(sel, word(a, p.first), word(b, p.first));
        return ObjRef(o);
    }
    size_t n = std::max(a->w.size(), b->w.size());
    o->w.resize(n, nullptr);
    for (size_t i = 0; i < n; i++) {
        E x = i < a->w.size() ? a->w[i] : nullptr, y = i < b->w.size() ? b->w[i] : nullptr;
        if (x == y) { o->w[i] = x; continue; }
        o->w[i] = mkIte(sel, word(a, i), word(b, i));
    }
    return ObjRef(o);
}
void Exec::mergeMem(TNode *a, TNode *b, E sel, Mem &out, uint32_t key, int level)
{
    // out already contains a's content
    if (a == b || !b) return;
    for (unsigned i = 0; i < 64; i++) {
        uint32_t k = (key << 6) | i;
        if (level < 3) {
            TNode *x = a ? a->ch[i] : nullptr, *y = b->ch[i];
            if (x != y && y) mergeMem(x, y, sel, out, k, level + 1);
        } else {
            Obj *x = a ? a->ob[i] : nullptr, *y = b->ob[i];
            if (x == y || !y) continue;
            if (!x) { out.put(k, y); continue; }
            ObjRef m = mergeObj(*this, x, y, sel, [&](const Obj *o, uint32_t j) { return word(o, j); });
            out.put(k, m.p);
        }
    }
}
StateP Exec::mergeStates(StateP A, StateP B)
{
    nMerges++;
    // common prefix of the path conditions
    PCRef p = A->pc, q = B->pc;
    E ra = mkTrue(), rb = mkTrue();
    std::vector<E> la, lb;
    while (p != q) {
        uint32_t dp = p ? p->depth : 0, dq = q ? q->depth : 0;
        if (dp >= dq) { la.push_back(p->e); p = p->up; }
        else { lb.push_back(q->e); q = q->up; }
    }
    // conjuncts common to both sides stay as conjuncts
    std::vector<E> common;
    for (E e : la) if (std::find(lb.begin(), lb.end(), e) != lb.end()) common.push_back(e);
    auto rest = [&](std::vector<E> &l) {
        E r = mkTrue();
        for (size_t i = l.size(); i-- > 0;)
            if (std::find(common.begin(), common.end(), l[i]) == common.end()) r = mkAnd(r, l[i]);
        return r;
    };
    ra = rest(la);
    rb = rest(lb);
    E sel = la.size() <= lb.size() ? ra : mkNot(rb);
    PCRef pc = p;
    for (size_t i = common.size(); i-- > 0;) pc = pcAdd(pc, common[i]);
    pc = pcAdd(pc, mkOr(ra, rb));
    A->pc = pc;
    if (sel->isConst()) throw Inconclusive{"merge of states that are not disjoint"};
    TNode *ta = A->mem.root.p, *tb = B->mem.root.p;
    if (ta != tb) {
        Mem out = A->mem;
        Ref<TNode> keep(ta);
        mergeMem(ta, tb, sel, out, 0, 0);
        A->mem = out;
    }
    for (size_t i = 0; i < A->threads.size(); i++) {
        if (A->threads[i].p == B->threads[i].p) continue;
        Thread *t = A->threads[i].mut();
        t->predArg = mergeV(sel, t->predArg, B->threads[i]->predArg);
    }
    for (size_t i = 0; i < A->fibers.size(); i++) {
        if (A->fibers[i].p == B->fibers[i].p || !A->fibers[i]) continue;
        Fiber *f = A->fibers[i].mut();
        const Fiber *g = B->fibers[i].p;
        // counters: pointwise maximum
        std::map<uint64_t, uint32_t> c(f->counters.begin(), f->counters.end());
        for (auto &x : g->counters) { auto &y = c[x.first]; y = std::max(y, x.second); }
        f->counters.assign(c.begin(), c.end());
        for (size_t k = 0; k < f->caught.size(); k++) f->caught[k] = mkIte(sel, f->caught[k], g->caught[k]);
        for (size_t k = 0; k < f->frames.size(); k++) {
            if (f->frames[k].p == g->frames[k].p) continue;
            const Frame *y = g->frames[k].p;
            const Frame *xc = f->frames[k].p;
            const DI &d = xc->fn->code[xc->pc];
            Frame *n = new Frame(*xc);
            n->rc = 0;
            if (isa<CallBase>(d.I) && !A->threads.empty()) {
                std::vector<V> regs(xc->regs.size());
                // a suspended fiber already points behind its call
                bool freshTop = k + 1 == f->frames.size();
                for (auto &t : A->threads) if (t->fiber == (int)i) freshTop = t->fresh;
                if (freshTop) { for (size_t r = 0; r < regs.size(); r++) regs[r] = mergeV(sel, xc->regs[r], y->regs[r]); }
                else for (int r : d.live) regs[r] = mergeV(sel, xc->regs[r], y->regs[r]);
                n->regs = std::move(regs);
            } else
                for (size_t r = 0; r < n->regs.size(); r++) n->regs[r] = mergeV(sel, xc->regs[r], y->regs[r]);
            for (size_t r = 0; r < n->varargs.size(); r++) n->varargs[r] = mergeV(sel, xc->varargs[r], y->varargs[r]);
            f->frames[k] = FrameRef(n);
        }
    }
    A->hist = new Hist{A->hist, B->hist, sel, 'M', nullptr, 0};
    if (!A->wit) A->wit = B->wit;
    A->known.clear();
    return A;
}
void Exec::terminal(State &s)
{
    nTerminal++;
    if ((int)witnessFiles.size() >= opt.witnesses) return;
    std::shared_ptr<Model> m = s.wit;
    if (!m && solve(s.pc, mkTrue(), &m) != Sat::Yes) return;
    witnessFiles.push_back(writeTrace(s, *m, opt.out + ".wit" + std::to_string(witnessFiles.size()) + ".trace", "terminal", "normal termination"));
}
// Order of exploration: states in which the threads are least advanced come
// first, so that paths of different length to the same control state meet.
void Exec::position(State &s, std::string &out)
{
    auto put = [&](uint32_t v) { for (int i = 3; i >= 0; i--) out.push_back((char)(v >> (8 * i))); };
    if (opt.bfs) { put(s.steps); return; }
    for (size_t i = 1; i < s.threads.size(); i++) {
        const Thread *t = s.threads[i].p;
        if (t->status == TS::Done) { put(0xffffffffu); continue; }
        for (auto &fr : s.fibers[t->fiber]->frames) put(fr->pc + 2);
        put(t->fresh ? 0 : 1);
    }
    for (auto &fr : s.fibers[s.threads[0]->fiber]->frames) put(fr->pc + 2);
    put(0);
}
void Exec::enqueue(StateP o)
{
    if (o->threads[0]->status == TS::Done) { terminal(*o); return; }
    std::string key;
    position(*o, key);
    key.append("/", 1);
    signature(*o, key);
    auto it = pending.find(key);
    if (it == pending.end()) { nStates++; pending.emplace(std::move(key), std::move(o)); }
    else {
        uint32_t st = std::max(it->second->steps, o->steps);
        it->second = mergeStates(std::move(it->second), std::move(o));
        it->second->steps = st;
    }
}
void Exec::expand(StateP s)
{
    checkTime();
    std::vector<StateP> outs;
    auto runChild = [&](StateP c) {
        nSegments++;
        c->known.clear();
        c->segInstr = 0;
        c->dirty = c->privDirty = false;
        c->wlog.clear();
        segOut = &outs;
        work.push_back(std::move(c));
        runWork();
        for (auto &o : outs) {
            nTransitions++;
            int me = o->cur;
            for (auto &l : o->wlog) {
                if (o->dirty) break;
                const Obj *ob = o->mem.get(std::get<0>(l));
                if (!ob || word(ob, std::get<1>(l)) != std::get<2>(l)) o->dirty = true;
            }
            o->wlog.clear();
            if (o->privDirty && !o->threads[me]->progress) o->threads[me].mut()->progress = true;
            if (o->spKind != SP_MERGE) {
                for (size_t i = 0; i < o->threads.size(); i++) {
                    if ((int)i == me) {
                        if (o->dirty && o->spKind != SP_YIELD && o->threads[i]->yields) o->threads[i].mut()->yields = 0;
                    } else if (o->dirty && o->threads[i]->yields)
                        o->threads[i].mut()->yields = 0;
                }
            }
            enqueue(std::move(o));
        }
        outs.clear();
    };
    if (s->spKind == SP_MERGE) {
        finishCall(*s, V());
        runChild(std::move(s));
        return;
    }
    size_t n = s->threads.size();
    std::vector<E> en(n, nullptr), al(n, nullptr);
    for (size_t i = 0; i < n; i++) {
        const Thread *t = s->threads[i].p;
        switch (t->status) {
        case TS::Done: en[i] = mkFalse(); break;
        case TS::Run: en[i] = mkTrue(); break;
        case TS::Await: en[i] = evalPred(*s, i); break;
        case TS::JoinAll: {
            bool all = true;
            for (size_t j = 0; j < n; j++)
                if (j != i && !s->threads[j]->daemon && s->threads[j]->status != TS::Done) all = false;
            en[i] = mkBool(all);
            break;
        }
        }
    }
    E any = mkFalse(), fresh = mkFalse();
    for (size_t i = 0; i < n; i++) {
        any = mkOr(any, en[i]);
        if (s->threads[i]->yields <= opt.yieldBudget) fresh = mkOr(fresh, en[i]);
    }
    if (!any->isTrue()) {
        std::string who;
        for (size_t i = 0; i < n; i++)
            if (s->threads[i]->status != TS::Done && !s->threads[i]->daemon) who += " T" + std::to_string(i);
        E none = mkNot(any);
        std::shared_ptr<Model> m;
        if (feasible(*s, none, &m)) {
            int c0 = s->cur;
            for (size_t i = 1; i < n; i++) if (s->threads[i]->status == TS::Await && !s->threads[i]->daemon) s->cur = i;
            violation(*s, none, "deadlock", "no thread can run, unfinished:" + who);
            s->cur = c0;
            if (!feasible(*s, any, &m)) return;
            assumeCond(*s, any, m);
        }
    }
    for (size_t i = 0; i < n; i++) al[i] = s->threads[i]->yields <= opt.yieldBudget ? en[i] : mkAnd(en[i], mkNot(fresh));
    if (opt.maxPreempt >= 0 && s->spKind == SP_VISIBLE && s->preempts >= opt.maxPreempt && s->threads[s->cur]->status == TS::Run)
        for (size_t i = 0; i < n; i++) if ((int)i != s->cur) al[i] = mkFalse();
    int cand = 0;
    for (size_t i = 0; i < n; i++) if (!al[i]->isFalse()) cand++;
    E sv = mkVar("s" + std::to_string(s->steps), 4);
    for (size_t i = 0; i < n; i++) {
        if (al[i]->isFalse()) continue;
        std::shared_ptr<Model> m;
        if (!al[i]->isTrue() && !feasible(*s, al[i], &m)) continue;
        if (!m) m = s->wit;
        StateP c(new State(*s));
        if (cand > 1) {
            c->pc = pcAdd(pcAdd(c->pc, al[i]), mkEq(sv, mkConst(i, 4)));
            c->wit = nullptr;
            if (m) {
                c->wit = std::make_shared<Model>(*m);
                c->wit->set(sv->c, i);
            }
        } else { c->pc = pcAdd(c->pc, al[i]); c->wit = m; }
        if ((int)i != s->cur && s->spKind == SP_VISIBLE && s->threads[s->cur]->status == TS::Run) c->preempts++;
        c->cur = i;
        c->steps++;
        record(*c, 'T', mkConst(i, 64), s->spKind);
        Thread *t = c->threads[i].mut();
        t->status = TS::Run;
        t->pred = nullptr;
        t->predArg = V();
        if (t->fresh) t->fresh = false;
        else finishCall(*c, V());
        runChild(std::move(c));
    }
}
void Exec::run()
{
    StateP s(new State);
    try {
        initGlobals(*s);
        Thread *t = new Thread;
        t->fresh = false;
        t->name = "main";
        s->threads.push_back(ThreadRef(t));
        s->fibers.resize(16);
        s->fibers[0] = FiberRef(new Fiber);
        for (auto *g : tlsVars) {
            Obj *o = new Obj;
            uint32_t key = mkKey(2, 200, tlsIdx[g]);
            o->base = (uint64_t)key << 20;
            o->size = std::max<uint64_t>(1, DL.getTypeAllocSize(g->getValueType()));
            o->kind = ObjKind::Tls;
            o->zero = true;
            o->live = mkTrue();
            if (g->hasInitializer()) writeInit(o, 0, g->getInitializer());
            s->mem.put(key, o);
        }
        s->wit = std::make_shared<Model>();
        Function *main = M.getFunction("vf_main");
        if (!main) throw Inconclusive{"vf_main not found"};
        pushFrame(*s, main, {}, 1);
        std::vector<StateP> outs;
        segOut = &outs;
        work.push_back(std::move(s));
        nSegments++;
        runWork();
        for (auto &o : outs) { nTransitions++; enqueue(std::move(o)); }
        for (step = 0; !pending.empty(); step++) {
            maxFrontier = std::max<uint64_t>(maxFrontier, pending.size());
            StateP x = std::move(pending.begin()->second);
            pending.erase(pending.begin());
            depth = std::max<uint64_t>(depth, x->steps);
            if (opt.verbose && step % 500 == 0)
                fprintf(stderr, "node %llu steps %u frontier %zu instr %llu queries %llu z3 %llu (%.1fs) exprs %u t=%.1f\n", (unsigned long long)step, x->steps, pending.size(),
                        (unsigned long long)nInstr, (unsigned long long)gSolver.queries, (unsigned long long)gSolver.z3calls, gSolver.seconds, exprCount(), nowS() - t0);
            if ((int)x->steps >= opt.maxSteps) {
                nStepBound++;
                if (opt.livelockIsViolation) {
                    for (size_t i = 0; i < x->threads.size(); i++) if (x->threads[i]->status != TS::Done && !x->threads[i]->daemon && i) { x->cur = i; break; }
                    violation(*x, mkTrue(), "livelock", "no termination within the step bound");
                }
                throw Inconclusive{"step bound reached with live states"};
            }
            expand(std::move(x));
        }
        complete = true;
    } catch (StopRun &) {
        complete = false;
        incompleteWhy = "stopped at a violation";
    } catch (Inconclusive &i) {
        complete = false;
        incompleteWhy = i.why;
    }
}
