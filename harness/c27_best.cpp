// C27: where an unbound coroutine goes, for NE envs in any state with any
// flags and loads, and any configured number of threads.
#include "c27.h"
#ifndef NE
#define NE 3
#endif
extern "C" void vf_main()
{
    p_setup();
    co_env *e[NE];
    for (int i = 0; i < NE; i++) {
        e[i] = p_env();
        p_any(e[i]);
        vf_assume(e[i]->state_manager__.state__ != co_env_state::created || (*(unsigned long *)&e[i]->flag_manager__.flags__ & 1)); // created: no thread yet
        e[i]->ctx_count__ = vf_nondet("load", 32);
    }
    unsigned long base = vf_nondet("base", 8);
    mgr->set_base_schedule_thread_count(base);
    co_env *b = mgr->get_best_env__();
    int at = -1;
    unsigned eligible = 0;
    for (int i = 0; i < NE; i++) {
        if (e[i] == b) at = i;
        eligible += p_eligible(e[i]);
    }
    if (at < 0) {
        vf_assert((eligible == 0) | (eligible < (base ? base : 1)), "a new thread although enough are available");
        vf_assert(p_eligible(b), "the new thread cannot run coroutines");
        vf_assert(mgr->env_set__.normal_set.contains(b), "the new thread is not known to the manager");
        vf_reach("new");
    } else {
        vf_assert(p_eligible(b), "a coroutine is placed on an exclusive, stopping or not running thread");
        bool idle = b->state_manager__.state__ == co_env_state::idle;
        for (int i = 0; i < NE; i++) vf_assert(idle | !p_eligible(e[i]) | (b->ctx_count__ <= e[i]->ctx_count__), "a coroutine is not placed on an idle or the least loaded thread");
        vf_reach("existing");
    }
    vf_reach("end");
}
