// Layer 1: every coroutine is one engine thread with its own real co_env and
// real (idle) co_ctx.  Replaced functions of the library:
//   co_env::schedule_switch()  -> give up the processor; while the context is
//                                 in the waiting state, only continue once the
//                                 real co_ctx::can_schedule() says so
//   co_env::wake_up()          -> nothing (the scheduler model re-evaluates
//                                 can_schedule() at every step)
//   co_manager background threads and signal handlers -> not started
#pragma once
#include "vf.h"
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_env_factory.h"
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_vos.h"
#include "cocpp/core/co_timer.h"
#include "contract.h"
#include <stdexcept>

extern "C" {
extern int vf_clock_mode, vf_clock_stall;
extern long (*vf_clock_fn)(void);
int vf_mutex_visible = 0;
int vf_cond_spurious = 0;
void vf_clock_private(void);
unsigned __vfs__ZNSt6thread20hardware_concurrencyEv(void) { return 2; }

#ifndef L1_ON_SWITCH
#define L1_ON_SWITCH(waiting)
#endif
#ifdef DEPTH // every operation leaves the preemption depth as it found it
#define L1_DEPTH(env) vf_assert((env)->schedule_lock__.count() == 0, "preemption is left disabled")
#else
#define L1_DEPTH(env)
#endif
static bool l1_can_run(void *c) { return ((cocpp::co_ctx *)c)->can_schedule(); }
void __vfo__ZN5cocpp6co_env15schedule_switchEv(cocpp::co_env *env)
{
    cocpp::co_ctx *ctx = env->current_ctx();
    if (ctx->state() == cocpp::co_state::finished) vf_exit_thread(); // never scheduled again
    if (ctx->can_schedule()) {
        L1_ON_SWITCH(false);
        vf_yield();
    } else {
        L1_ON_SWITCH(true);
        vf_await(l1_can_run, ctx);
    }
}
void __vfo__ZN5cocpp6co_env7wake_upEv(cocpp::co_env *) {}
void __vfo__ZN5cocpp10co_manager24create_background_task__Ev(cocpp::co_manager *) {}
void __vfs__ZN5cocpp21set_up_signal_handlerERKSt6vectorIiSaIiEE(const void *) {}
}
static cocpp::co_env *l1_env[10];
static inline cocpp::co_ctx *l1_ctx(int i) { return l1_env[i]->current_ctx(); }
static void l1_setup(int n) // contexts for threads 0..n
{
    vf_clock_private();
    auto *mgr = cocpp::co_manager::instance();
    (void)mgr;
    for (int i = n; i >= 0; i--) {
        cocpp::current_env__ = nullptr;
        l1_env[i] = mgr->current_env();
        vf_quiet(l1_env[i], sizeof(cocpp::co_env)); // used by its own coroutine only
        vf_watch((char *)(&l1_ctx(i)->wait_data__.mu + 1) - 1, 1); // scheduling point when a wait state changes
    }
}
#ifdef DEPTH
extern "C" void l1_main();
static int vf_thread_daemon; // threads that do not end
extern "C" void vf_main()
{
    l1_main();
    vf_join_all();
    for (int i = 0; i < 10; i++)
        if (l1_env[i] && !(vf_thread_daemon >> i & 1)) L1_DEPTH(l1_env[i]);
    vf_reach("depth");
}
#define vf_main l1_main
#endif
// the waiting flag and state of every context decide who can run
static void l1_keys(int n)
{
    for (int i = 0; i <= n; i++) {
        vf_key(&l1_ctx(i)->flag_manager__, sizeof(l1_ctx(i)->flag_manager__));
    }
}
// ghost variables: keep them concrete
template <class... T> static void l1_ghost(T &...v) { (vf_key(&v, sizeof v), ...); }
// symmetry reduction: coroutines first..last run the same program, so only
// schedules in which they take their first step in index order are considered
static int l1_started;
static inline void l1_symmetric(long id, long first)
{
    vf_assume(l1_started == id - first);
    l1_started++;
}
// contents of the first n elements' worth of a deque's first node
template <class D> static void l1_key_deque(D &d, int n)
{
    vf_key(&d, sizeof d);
    vf_key(d._M_impl._M_start._M_first, n * sizeof(*d._M_impl._M_start._M_first));
}
static void l1_enter() { cocpp::current_env__ = l1_env[vf_tid()]; }
