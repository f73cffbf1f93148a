// Native replay: runs the same program as the symbolic executor on real
// threads, with every scheduling decision, nondeterministic value and heap
// address taken from a trace.  Exit codes: 0 trace reproduced and the run
// terminated as the trace says; 10 the recorded violation happened; 20 the run
// diverged from the trace.
#include "vf.h"
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

struct Ev { char t; unsigned long long v, aux; };
static std::vector<Ev> ev;
static size_t pos;
static std::string endKind;
static char buf[4096];
struct Th {
    pthread_t p;
    sem_t sem;
    bool done = false, daemon = false, joinAll = false;
    int atomicDepth = 0;
    bool (*pred)(void *) = nullptr;
    void *arg = nullptr;
    void *(*fn)(void *) = nullptr;
    void *farg = nullptr;
};
static Th th[16];
static int nth = 1;
static thread_local int me = 0;
static thread_local bool inPred = false;
static std::vector<std::pair<uintptr_t, uintptr_t>> priv, watch_;
static bool real = true; // before the trace starts / inside the runtime

[[noreturn]] static void finish(int code, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n] = '\n';
    if (write(1, buf, n + 1)) {}
    _exit(code);
}
[[noreturn]] static void confirmed(const char *kind, const char *msg)
{
    if (pos + 0 < ev.size()) finish(20, "diverged: %s (%s) before the end of the trace, event %zu of %zu", kind, msg, pos, ev.size());
    finish(10, "violation reproduced: %s: %s", kind, msg);
}
static bool anyEnabled()
{
    for (int i = 0; i < nth; i++) {
        if (th[i].done) continue;
        if (th[i].joinAll) {
            bool all = true;
            for (int j = 0; j < nth; j++) if (j != i && !th[j].daemon && !th[j].done) all = false;
            if (all) return true;
        } else if (th[i].pred) {
            int m = me;
            me = i;
            inPred = true;
            bool r = th[i].pred(th[i].arg);
            inPred = false;
            me = m;
            if (r) return true;
        } else return true;
    }
    return false;
}
static void endOfTrace()
{
    if (endKind == "deadlock") {
        if (!anyEnabled()) finish(10, "violation reproduced: deadlock: no thread can run");
        finish(20, "diverged: deadlock expected but a thread can run");
    }
    if (endKind == "livelock") finish(10, "violation reproduced: livelock: still running after %zu recorded events", ev.size());
    finish(20, "diverged: trace ended (%s) but the program continues", endKind.c_str());
}
static Ev &next(char want)
{
    if (pos >= ev.size()) {
        endOfTrace();
    }
    Ev &e = ev[pos++];
    if (e.t != want) finish(20, "diverged: event %zu is %c, program does %c", pos - 1, e.t, want);
    return e;
}
static void handOver(bool waitAfter)
{
    while (pos < ev.size() && ev[pos].t == 'F') pos++;
    Ev &e = next('T');
    int t = (int)e.v;
    if (t >= nth || th[t].done) finish(20, "diverged: thread %d is not alive", t);
    if (t == me) return;
    sem_post(&th[t].sem);
    if (waitAfter) while (sem_wait(&th[me].sem)) {}
}
static int aliveOthers()
{
    int n = 0;
    for (int i = 0; i < nth; i++) if (i != me && !th[i].done) n++;
    return n;
}
static void *threadMain(void *p)
{
    me = (int)(intptr_t)p;
    while (sem_wait(&th[me].sem)) {}
    th[me].fn(th[me].farg);
    th[me].done = true;
    handOver(false);
    return nullptr;
}
static bool within(std::vector<std::pair<uintptr_t, uintptr_t>> &v, const void *p)
{
    for (auto &r : v) if ((uintptr_t)p >= r.first && (uintptr_t)p < r.second) return true;
    return false;
}
struct Blk { size_t n; bool live; };
static std::map<uintptr_t, Blk> blocks;
extern "C" {
uint64_t vf_nondet(const char *, int) { while (pos < ev.size() && ev[pos].t == 'F') pos++; return next('N').v; }
void vf_assume(int c) { if (!c) finish(20, "diverged: assumption violated"); }
void vf_assert(int c, const char *msg) { if (!c) confirmed("assert", msg); }
void vf_fail(const char *msg) { confirmed("assert", msg); }
void vf_kill_path(void) { finish(20, "diverged: path killed"); }
int vf_spawn(void *(*fn)(void *), void *arg)
{
    Ev &e = next('S');
    int id = nth++;
    if ((int)e.v != id) finish(20, "diverged: thread id");
    th[id].fn = fn;
    th[id].farg = arg;
    sem_init(&th[id].sem, 0, 0);
    pthread_create(&th[id].p, nullptr, threadMain, (void *)(intptr_t)id);
    return id;
}
int vf_tid(void) { return me; }
int vf_thread_done(int t) { return t < nth && th[t].done; }
void vf_daemon(void) { th[me].daemon = true; }
void vf_exit_thread(void) { th[me].done = true; handOver(false); for (;;) pause(); }
static void sched(bool visible)
{
    if (inPred || th[me].atomicDepth) return;
    handOver(true);
}
void vf_yield(void) { sched(false); }
void vf_visible(const void *p, int) { if (inPred || within(priv, p)) return; sched(true); }
static void checkAccess(const void *p)
{
    if (blocks.empty() || (uintptr_t)p < blocks.begin()->first || (uintptr_t)p >= (1ull << 44)) return;
    auto it = blocks.upper_bound((uintptr_t)p);
    --it;
    if ((uintptr_t)p - it->first >= (1ull << 20)) return; // not a heap object
    if (!it->second.live) confirmed("memory", "access to freed memory");
    if ((uintptr_t)p - it->first >= it->second.n) confirmed("memory", "access outside an object");
}
void vf_mem(const void *p, int) { checkAccess(p); if (inPred || !within(watch_, p)) return; sched(true); }
void vf_await(bool (*pred)(void *), void *arg)
{
    th[me].pred = pred;
    th[me].arg = arg;
    handOver(true);
    inPred = true;
    bool r = pred(arg);
    inPred = false;
    if (!r) finish(20, "diverged: awaited condition is false");
    th[me].pred = nullptr;
}
void vf_join_all(void)
{
    th[me].joinAll = true;
    handOver(true);
    th[me].joinAll = false;
}
void vf_atomic_begin(void) { th[me].atomicDepth++; }
void vf_atomic_end(void) { th[me].atomicDepth--; }
void vf_private(const void *p, size_t n) { priv.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
void vf_quiet(const void *p, size_t n) { vf_private(p, n); }
void vf_watch(const void *p, size_t n) { watch_.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
void vf_key(const void *, size_t) {}
void vf_merge(void) {}
void vf_reach(const char *) {}
void vf_observe(uint64_t v)
{
    if (inPred) return;
    Ev &e = next('O');
    if (e.v != v) finish(20, "diverged: observed %llu, trace says %llu", (unsigned long long)v, e.v);
}
static void *place(size_t n, bool any = false)
{
    while (pos < ev.size() && ev[pos].t == 'F') pos++;
    Ev &e = next('A');
    if (e.aux != n && !any) finish(20, "diverged: allocation of %zu bytes, trace says %llu", n, e.aux);
    size_t len = (n + 4095) / 4096 * 4096;
    if (!len) len = 4096;
    void *p = mmap((void *)e.v, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != (void *)e.v) finish(20, "diverged: cannot place object");
    blocks[(uintptr_t)p] = {n, true};
    return p;
}
void *vf_malloc(size_t n) { void *p = place(n); memset(p, 0xa5, n); return p; }
void *vf_calloc(size_t n) { return place(n); }
void *vf_mmap(size_t n) { return place(n, true); } // stacks may be larger natively
static void release(void *p)
{
    if (!p) return;
    auto it = blocks.find((uintptr_t)p);
    if (it == blocks.end()) {
        if ((uintptr_t)p >= (1ull << 44)) { free(p); return; } // allocated inside a shared library
        confirmed("memory", "release of an invalid pointer");
    }
    if (!it->second.live) confirmed("memory", "memory released twice");
    it->second.live = false;
    size_t len = (it->second.n + 4095) / 4096 * 4096;
    mprotect(p, len ? len : 4096, PROT_NONE);
}
void vf_free(void *p) { release(p); }
int vf_munmap(void *p, size_t) { release(p); return 0; }
int vf_is_live(const void *p) { auto it = blocks.find((uintptr_t)p); return it != blocks.end() && it->second.live; }
uint64_t vf_concrete(uint64_t v) { return v; }
int vf_symbolic_engine(void) { return 0; }
void vf_main(void);
}
static void onSignal(int sig)
{
    const char *k = endKind == "memory" || endKind == "unreachable" || endKind == "trap" ? endKind.c_str() : "signal";
    if (pos < ev.size()) finish(10, "violation reproduced: signal %d at event %zu of %zu", sig, pos, ev.size()); // same run up to here
    finish(10, "violation reproduced: %s: signal %d", k, sig);
}
static void onTerminate() { confirmed("terminate", "std::terminate called"); }
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "r");
    if (!f) return 3;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') continue;
        if (line[0] == 'E') { endKind = std::string(line + 2); while (!endKind.empty() && endKind.back() == '\n') endKind.pop_back(); continue; }
        Ev e;
        if (sscanf(line, "%c %llu %llu", &e.t, &e.v, &e.aux) == 3) ev.push_back(e);
    }
    fclose(f);
    static char alt[65536];
    stack_t ss {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = onSignal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
    std::set_terminate(onTerminate);
    alarm(60);
    sem_init(&th[0].sem, 0, 0);
    vf_main();
    while (pos < ev.size() && ev[pos].t == 'F') pos++;
    if (pos != ev.size()) finish(20, "diverged: %zu events left", ev.size() - pos);
    if (endKind == "terminal") finish(0, "trace reproduced, %zu events", ev.size());
    // memory errors found by the engine that do not trap natively
    finish(20, "not reproduced: program terminated normally, trace ends with %s", endKind.c_str());
}
