// Symbolic machine state: memory, fibers, threads, path condition, history.
#pragma once
#include "expr.h"
#include "solver.h"
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

namespace llvm { class Function; class Instruction; class BasicBlock; class CallBase; }

template <class T> struct Ref { // intrusive pointer (single threaded)
    T *p = nullptr;
    Ref() = default;
    Ref(T *x) : p(x) { if (p) p->rc++; }
    Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
    Ref &operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    T *operator->() const { return p; }
    T &operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
    T *mut() { // unique copy for writing
        if (p->rc > 1) { T *n = new T(*p); n->rc = 0; *this = Ref(n); }
        return p;
    }
};

struct V {
    E e = nullptr;
    std::shared_ptr<std::vector<V>> agg;
    V() = default;
    V(E x) : e(x) {}
    bool none() const { return !e && !agg; }
};
bool sameV(const V &a, const V &b);
V mergeV(E sel, const V &a, const V &b);

enum class ObjKind : uint8_t { Global, Heap, Stack, Map, Tls };
struct Obj {
    int rc = 0;
    uint64_t base = 0;
    uint64_t size = 0;
    E live = nullptr;
    ObjKind kind = ObjKind::Heap;
    bool zero = false;            // untouched words read as zero
    bool readOnly = false;
    const std::string *name = nullptr;
    std::vector<E> w;             // 64-bit words, null = untouched
    std::map<uint32_t, E> sparse; // used instead of w for large objects
    mutable uint64_t shape = 0;   // hash of the pointer words (0: not computed)
    bool big() const { return size > 65536; }
    E get(uint32_t i) const
    {
        if (big()) { auto it = sparse.find(i); return it == sparse.end() ? nullptr : it->second; }
        return i < w.size() ? w[i] : nullptr;
    }
    void set(uint32_t i, E e)
    {
        shape = 0;
        if (big()) { sparse[i] = e; return; }
        if (i >= w.size()) w.resize((size + 7) / 8, nullptr);
        w[i] = e;
    }
};
using ObjRef = Ref<Obj>;

// Persistent radix tree: 24-bit key, four levels of 64.
struct TNode {
    int rc = 0;
    mutable uint64_t shape = 0; // as for Obj
    bool leaf = false;
    TNode *ch[64];
    Obj *ob[64];
    TNode(bool l) : leaf(l) { memset(ch, 0, sizeof ch); memset(ob, 0, sizeof ob); }
    TNode(const TNode &o) : leaf(o.leaf)
    {
        memcpy(ch, o.ch, sizeof ch);
        memcpy(ob, o.ob, sizeof ob);
        for (auto *c : ch) if (c) c->rc++;
        for (auto *c : ob) if (c) c->rc++;
    }
    ~TNode()
    {
        for (auto *c : ch) if (c && --c->rc == 0) delete c;
        for (auto *c : ob) if (c && --c->rc == 0) delete c;
    }
};
struct Mem {
    Ref<TNode> root;
    Mem() : root(new TNode(false)) {}
    const Obj *get(uint32_t key) const
    {
        TNode *n = root.p;
        for (int s = 18; s > 0; s -= 6) {
            n = n->ch[(key >> s) & 63];
            if (!n) return nullptr;
        }
        return n->ob[key & 63];
    }
    TNode *leafMut(uint32_t key)
    {
        TNode *n = root.mut();
        n->shape = 0;
        for (int s = 18; s > 0; s -= 6) {
            unsigned i = (key >> s) & 63;
            TNode *c = n->ch[i];
            if (!c) { c = new TNode(s == 6); c->rc = 1; n->ch[i] = c; }
            else if (c->rc > 1) { TNode *d = new TNode(*c); d->rc = 1; c->rc--; n->ch[i] = d; c = d; }
            n = c;
            n->shape = 0;
        }
        return n;
    }
    Obj *mut(uint32_t key)
    {
        TNode *l = leafMut(key);
        Obj *o = l->ob[key & 63];
        if (!o) return nullptr;
        if (o->rc > 1) { Obj *d = new Obj(*o); d->rc = 1; o->rc--; l->ob[key & 63] = d; o = d; }
        o->shape = 0;
        return o;
    }
    void put(uint32_t key, Obj *o)
    {
        TNode *l = leafMut(key);
        Obj *old = l->ob[key & 63];
        if (o) o->rc++;
        l->ob[key & 63] = o;
        if (old && --old->rc == 0) delete old;
    }
};

struct FnInfo;
struct Frame {
    int rc = 0;
    FnInfo *fn = nullptr;
    int pc = 0;                   // index of the instruction being executed
    llvm::BasicBlock *prev = nullptr;
    std::vector<V> regs;
    std::vector<uint32_t> allocas;
    std::vector<V> varargs;
    uint64_t site = 0;            // hash of the call chain
    int marker = 0;               // 1: predicate evaluation frame
};
using FrameRef = Ref<Frame>;

struct Fiber {
    int rc = 0;
    int id = 0;
    std::vector<FrameRef> frames;
    std::vector<std::pair<uint64_t, uint32_t>> counters; // allocation/nondet counters per site
    uint32_t stackTop = 0;
    std::vector<E> caught;        // exception objects being handled
};
using FiberRef = Ref<Fiber>;

enum class TS : uint8_t { Run, Await, JoinAll, Done };
struct Thread {
    int rc = 0;
    int fiber = 0;
    int home = 0;
    TS status = TS::Run;
    bool daemon = false;
    bool fresh = true;
    uint8_t yields = 0;
    bool progress = false;        // own (private) state changed since the last yield
    uint8_t atomicDepth = 0;
    llvm::Function *pred = nullptr;
    V predArg;
    std::string name;
};
using ThreadRef = Ref<Thread>;

struct Hist {
    const Hist *p1, *p2;
    E sel;       // merge node: sel ? p1 : p2
    char type;   // M merge, T schedule, N nondet, A alloc, O observe
    E val;
    uint64_t aux;
};

struct State {
    Mem mem;
    PCRef pc = nullptr;
    std::vector<FiberRef> fibers;
    std::vector<ThreadRef> threads;
    std::vector<std::pair<uint64_t, int>> fiberMap;            // context address -> fiber id
    std::vector<std::pair<uint64_t, uint64_t>> watch, priv, quiet, keys;    // address ranges
    const Hist *hist = nullptr;
    std::shared_ptr<Model> wit;
    std::vector<std::pair<E, uint64_t>> known; // values fixed by forking in this segment
    uint64_t segInstr = 0;
    int cur = 0;
    int preempts = 0;
    uint32_t steps = 0;         // scheduling decisions so far (maximum over merged paths)
    bool dirty = false, privDirty = false;
    std::vector<std::tuple<uint32_t, uint32_t, E>> wlog; // words written in this segment with their old values
    bool inPred = false;
    int spKind = 0; // why the thread stopped: see SP
    uint64_t exitCode = 0;
};
enum SP { SP_VISIBLE = 1, SP_YIELD, SP_AWAIT, SP_EXIT, SP_MERGE, SP_SPAWN };
using StateP = std::unique_ptr<State>;
