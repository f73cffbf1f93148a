// Layer 1 with timers: the real co_manager::timer_routine__ runs in an engine
// thread; a coroutine started by the library (the timer callbacks) is one more
// engine thread that runs the given entry.
#pragma once
#include "l1.h"
#ifndef L1T_CLOCK
#define L1T_CLOCK 40
#endif
extern "C" long vf_clock_now;
extern "C" int vf_clock_bits;
extern "C" long vf_clock_horizon;
static void *l1t_run(void *p)
{
    l1_enter();
    auto *f = (std::function<void(cocpp::co_any &)> *)p;
    cocpp::co_any ret;
    (*f)(ret);
    delete f;
    return nullptr;
}
static int l1t_started; // coroutines started so far; at most L1T_MAX
extern "C" cocpp::co_ctx *__vfo__ZN5cocpp10co_manager23create_and_schedule_ctxERKNS_13co_ctx_configESt8functionIFvRNS_6co_anyEEEb(
    cocpp::co_manager *, const cocpp::co_ctx_config *, std::function<void(cocpp::co_any &)> *entry, bool)
{
    l1t_started++;
#ifdef L1T_MAX
    vf_assume(l1t_started <= L1T_MAX);
#endif
    // the new coroutine is added to some env, which takes the env's schedule lock
    auto *env = l1_env[2 + vf_choice("env", 2)];
#ifndef DEPTH // (would show up in the depth while it waits)
    env->lock_schedule();
    env->unlock_schedule();
#endif
    vf_spawn(l1t_run, new std::function<void(cocpp::co_any &)>(*entry));
    return nullptr;
}
static void *l1t_routine(void *)
{
    l1_enter();
    vf_daemon();
#ifdef DEPTH
    vf_thread_daemon |= 1 << vf_tid();
#endif
    cocpp::co_manager::instance()->timer_routine__();
    return nullptr;
}
template <class M> static void l1t_watch_mutex(M &m) { vf_watch((char *)(&m + 1) - 1, 1); } // locking it is a scheduling point
static void l1t_setup(int n)
{
    l1_setup(n);
    vf_clock_mode = 4;
    vf_clock_now = 0;
    vf_clock_bits = L1T_CLOCK;
#ifndef NOHORIZON
    vf_clock_horizon = (2l << L1T_CLOCK) - 1; // what is due by then must have happened when nothing can run
#endif
    l1t_watch_mutex(cocpp::co_manager::instance()->mu_timer_queue__);
    vf_key(&l1t_started, sizeof l1t_started);
    vf_spawn(l1t_routine, 0);
}
