// C27: taking coroutines off a thread, from any state of NC coroutines, and
// moving them to another one.
#include "c27.h"
#include <vector>
#ifndef NC
#define NC 3
#endif
static const int levels[] = {0, 1, 99};
extern "C" void vf_main()
{
    p_setup();
    co_env *a = p_env(), *b = p_env();
    a->set_state(co_env_state::busy);
    b->set_state(co_env_state::idle);
    co_ctx *c[NC];
    bool mv[NC];
    int last = 0;
    for (int i = 0; i < NC; i++) {
        last += (int)vf_concrete(vf_choice("priority", 3 - last));
        co_ctx_config cfg;
        cfg.stack_size = 0;
        cfg.priority = levels[last];
        c[i] = co_ctx_factory::create_ctx(cfg, [](co_any &) {});
        a->move_ctx_to_here(c[i]);
        unsigned long f = vf_nondet("flags", CO_CTX_FLAG_MAX) & ~(1ul << CO_CTX_FLAG_IDLE);
        *(unsigned long *)&c[i]->flag_manager__.flags__ = f;
        unsigned st = vf_choice("state", 3);
        c[i]->state_manager__.state__ = (co_state)st;
        mv[i] = !((f >> CO_CTX_FLAG_BIND) & 1) & !((f >> CO_CTX_FLAG_SHARED_STACK) & 1) & (st == (unsigned)co_state::suspended);
    }
    static const int mins[] = {0, 1, 50, 99};
    a->min_priority__ = mins[vf_concrete(vf_choice("min", 4))];
    for (co_ctx *x : c) vf_assume((int)!x->can_schedule() | (int)(a->min_priority__ <= x->priority())); // shown by C18
    bool one = vf_concrete(vf_choice("one", 2));
    std::list<co_ctx *> got;
    if (one) {
        co_ctx *x = a->take_one_movable_ctx();
        if (x) got.push_back(x);
    } else got = a->take_all_movable_ctx();
    int taken = 0, movable = 0;
    for (int i = 0; i < NC; i++) {
        int n = 0;
        for (co_ctx *x : got) if (x == c[i]) n++;
        vf_assert(n <= 1, "a coroutine was taken twice");
        vf_assert((n == 0) | mv[i], "a bound, running, finished or shared-stack coroutine was taken");
        vf_assert(p_where(a, c[i]) == 1 - n, "a taken coroutine is still on its thread, or another one was lost");
        taken += n;
        movable += mv[i];
    }
    vf_assert((int)got.size() == taken, "something else was taken");
    vf_assert(a->ctx_count() == (size_t)(NC - taken), "the thread's load is wrong");
    if (one) vf_assert(taken == (movable > 0), "not one movable coroutine was taken");
    else vf_assert(taken == movable, "a movable coroutine was left behind");
    int k = 0;
    for (co_ctx *x : got) {
        b->move_ctx_to_here(x);
        k++;
        vf_assert(x->env() == b && p_where(b, x) == 1, "a moved coroutine is not on its new thread");
        vf_assert((int)b->ctx_count() == k && b->min_priority__ <= x->priority(), "a moved coroutine is invisible to its new thread");
        vf_assert(b->state() == co_env_state::busy, "the new thread was not told");
    }
    vf_reach("end");
}
