// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vf_nondet(const char *name, int bits); // unconstrained value
void vf_assume(int cond);
void vf_assert(int cond, const char *msg);
void vf_fail(const char *msg);
void vf_kill_path(void);
int vf_spawn(void *(*fn)(void *), void *arg);
int vf_tid(void);
int vf_thread_done(int tid);
void vf_daemon(void);               // this thread need not finish
void vf_exit_thread(void) __attribute__((noreturn));
void vf_yield(void);                // scheduling point, fair to the others
void vf_await(bool (*pred)(void *), void *arg); // block until pred(arg)
void vf_join_all(void);
void vf_atomic_begin(void);
void vf_atomic_end(void);
void vf_private(const void *p, size_t n); // not shared between threads
void vf_quiet(const void *p, size_t n);   // accesses are no scheduling points
void vf_watch(const void *p, size_t n);   // every access is a scheduling point
void vf_key(const void *p, size_t n);     // engine only: do not merge states that differ here
void vf_visible(const void *p, int kind);
void vf_mem(const void *p, int kind);
void vf_merge(void);
void vf_reach(const char *name);    // must be reachable, else the check is vacuous
void vf_observe(uint64_t v);        // compared with the native run
void *vf_malloc(size_t n);
void *vf_calloc(size_t n);
void vf_free(void *p);
void *vf_mmap(size_t n);
int vf_munmap(void *p, size_t n);
int vf_is_live(const void *p);
uint64_t vf_concrete(uint64_t v);   // fork over the values of v
int vf_symbolic_engine(void);       // 1 in the engine, 0 natively
}
static inline unsigned vf_choice(const char *name, unsigned n)
{
    int bits = 1;
    while ((1u << bits) < n) bits++;
    unsigned v = (unsigned)vf_nondet(name, bits);
    if ((1u << bits) != n) vf_assume(v < n);
    return v;
}
