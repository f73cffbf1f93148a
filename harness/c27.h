// Placement: envs without threads whose state, flags and load are set at will.
#pragma once
#include "l2.h"
extern "C" void __vfo__ZN5cocpp6co_env14start_scheduleEv(cocpp::co_env *) {} // a new env gets no thread
using namespace cocpp;
static co_manager *mgr;
static co_env *p_env()
{
    current_env__ = nullptr;
    co_env *e = mgr->current_env();
    e->unset_flag(CO_ENV_FLAG_NO_SCHE_THREAD);
    e->unset_flag(CO_ENV_FLAG_CONVERTED);
    return e;
}
static void p_setup()
{
    vf_clock_private();
    mgr = co_manager::instance();
}
// any state, flags and load
static void p_any(co_env *e)
{
    unsigned st = vf_choice("state", 5);
    e->state_manager__.state__ = (co_env_state)st;
    *(unsigned long *)&e->flag_manager__.flags__ = vf_nondet("flags", CO_ENV_FLAG_MAX);
}
static bool p_eligible(co_env *e)
{
    co_env_state s = e->state_manager__.state__;
    unsigned long f = *(unsigned long *)&e->flag_manager__.flags__;
    // an env whose thread is about to start is in state idle, or created without thread
    return (s != co_env_state::blocked) & (s != co_env_state::destroying) & !((f >> CO_ENV_FLAG_NO_SCHE_THREAD) & 1) & !((f >> CO_ENV_FLAG_EXCLUSIVE) & 1);
}
static int p_where(co_env *e, co_ctx *c) // how often a coroutine is listed on an env
{
    int n = 0;
    for (auto &q : e->all_normal_ctx__) for (co_ctx *x : q) if (x == c) n++;
    return n;
}
