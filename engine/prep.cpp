#include "prep.h"
#include <cstdio>
#include <regex>
#include <set>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static int writeModule(Module &M, const std::string &out)
{
    std::string e;
    raw_string_ostream os(e);
    if (verifyModule(M, &os)) { fprintf(stderr, "verify: %s\n", os.str().c_str()); return 2; }
    std::error_code ec;
    raw_fd_ostream f(out, ec, sys::fs::OF_None);
    if (ec) { fprintf(stderr, "cannot write %s\n", out.c_str()); return 2; }
    WriteBitcodeToFile(M, f);
    return 0;
}
static FunctionCallee decl2(Module &M, const char *name)
{
    auto &C = M.getContext();
    return M.getOrInsertFunction(name, Type::getVoidTy(C), PointerType::getUnqual(C), Type::getInt32Ty(C));
}

int prepModule(Module &M, const std::string &out, const std::vector<std::string> &novis, bool nostores)
{
    // 1. function replacement: __vfo_X must replace an existing X, __vfs_X replaces X where it occurs
    std::vector<Function *> reps;
    for (auto &F : M) if (F.getName().starts_with("__vfo_") || F.getName().starts_with("__vfs_")) reps.push_back(&F);
    int missing = 0;
    for (Function *F : reps) {
        bool must = F->getName().starts_with("__vfo_");
        std::string target = F->getName().substr(6).str();
        Function *T = M.getFunction(target);
        if (!T) {
            if (must) { fprintf(stderr, "prep: override target %s (%s) not found\n", target.c_str(), demangle(target).c_str()); missing = 1; }
            continue;
        }
        if (T == F) continue;
        T->replaceAllUsesWith(F);
        T->deleteBody();
        T->setComdat(nullptr);
        T->setLinkage(GlobalValue::ExternalLinkage);
        T->removeDeadConstantUsers();
        if (T->use_empty()) T->eraseFromParent();
    }
    if (missing) return 2;
    // constructors of the real singletons etc. still run through vf_main (see below)
    if (auto *g = M.getNamedGlobal("__libc_single_threaded")) {
        g->setInitializer(ConstantInt::get(g->getValueType(), 1));
        g->setConstant(true);
        g->setLinkage(GlobalValue::InternalLinkage);
        g->setDSOLocal(true);
    }
    // 2. atomics become scheduling points
    FunctionCallee vis = decl2(M, "vf_visible");
    std::vector<std::regex> rx;
    for (auto &r : novis) rx.emplace_back(r);
    unsigned n = 0;
    for (auto &F : M) {
        if (F.isDeclaration()) continue;
        std::string dn = demangle(F.getName().str());
        bool skip = false;
        for (auto &r : rx) if (std::regex_search(dn, r)) skip = true;
        if (dn.find("__gnu_cxx::__exchange_and_add") != std::string::npos || dn.find("__gnu_cxx::__atomic_add") != std::string::npos) skip = true;
        if (dn.find("std::_Sp_counted_base") != std::string::npos) skip = true;
        if (skip) continue;
        std::vector<Instruction *> todo;
        for (auto &B : F)
            for (auto &I : B) {
                if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) todo.push_back(&I);
                if (auto *l = dyn_cast<LoadInst>(&I)) if (l->isAtomic()) {
                    if (isa<GlobalVariable>(l->getPointerOperand()->stripPointerCasts()) && l->getPointerOperand()->getName().starts_with("_ZGV")) continue;
                    todo.push_back(&I);
                }
                if (auto *st = dyn_cast<StoreInst>(&I)) if (st->isAtomic() && !nostores) todo.push_back(&I);
            }
        for (auto *I : todo) {
            IRBuilder<> B(I);
            Value *p = isa<LoadInst>(I) ? cast<LoadInst>(I)->getPointerOperand() : isa<StoreInst>(I) ? cast<StoreInst>(I)->getPointerOperand()
                     : isa<AtomicRMWInst>(I) ? cast<AtomicRMWInst>(I)->getPointerOperand() : cast<AtomicCmpXchgInst>(I)->getPointerOperand();
            B.CreateCall(vis, {p, B.getInt32(isa<LoadInst>(I) ? 0 : 1)});
            n++;
        }
    }
    // 3. vf_main runs the global constructors first
    if (auto *gc = M.getGlobalVariable("llvm.global_ctors")) {
        Function *main = M.getFunction("vf_main");
        if (main && gc->hasInitializer() && isa<ConstantArray>(gc->getInitializer())) {
            IRBuilder<> B(&*main->getEntryBlock().getFirstInsertionPt());
            std::vector<std::pair<int, Function *>> fs;
            for (auto &op : cast<ConstantArray>(gc->getInitializer())->operands()) {
                auto *cs = cast<ConstantStruct>(op);
                if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) fs.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
            }
            std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &p : fs) {
                auto *c = B.CreateCall(p.second);
                if (auto *sp = main->getSubprogram()) c->setDebugLoc(DILocation::get(M.getContext(), 0, 0, sp));
            }
        }
        gc->eraseFromParent();
    }
    fprintf(stderr, "prep: %zu overrides, %u atomic operations instrumented\n", reps.size(), n);
    return writeModule(M, out);
}

int memModule(Module &M, const std::string &out)
{
    FunctionCallee mem = decl2(M, "vf_mem");
    unsigned n = 0;
    for (auto &F : M) {
        if (F.isDeclaration()) continue;
        if (F.getName().starts_with("vf_")) continue;
        std::vector<Instruction *> todo;
        for (auto &B : F)
            for (auto &I : B) {
                Value *p = nullptr;
                if (auto *l = dyn_cast<LoadInst>(&I)) { if (!l->isAtomic()) p = l->getPointerOperand(); }
                else if (auto *s = dyn_cast<StoreInst>(&I)) { if (!s->isAtomic()) p = s->getPointerOperand(); }
                if (!p) continue;
                const Value *u = getUnderlyingObject(p);
                if (auto *g = dyn_cast<GlobalVariable>(u)) if (g->isConstant()) continue;
                if (isa<AllocaInst>(u)) continue;
                todo.push_back(&I);
            }
        for (auto *I : todo) {
            IRBuilder<> B(I);
            Value *p = isa<LoadInst>(I) ? cast<LoadInst>(I)->getPointerOperand() : cast<StoreInst>(I)->getPointerOperand();
            B.CreateCall(mem, {p, B.getInt32(isa<LoadInst>(I) ? 0 : 1)});
            n++;
        }
    }
    fprintf(stderr, "mem: %u accesses instrumented\n", n);
    return writeModule(M, out);
}
