// C27: a bound coroutine is placed on its thread, whatever the state of the others.
#include "c27.h"
extern "C" void vf_main()
{
    p_setup();
    co_env *a = p_env(), *b = p_env();
    p_any(a);
    p_any(b);
    co_env_state s = a->state_manager__.state__;
    bool bad = (s == co_env_state::created) | (s == co_env_state::destroying);
    co_ctx_config cfg;
    cfg.stack_size = 4096;
    cfg.priority = (int)vf_concrete(vf_choice("priority", 2)) * 7;
    cfg.bind_env = a;
    co_ctx *c = nullptr;
    bool thrown = false;
    try { c = mgr->create_and_schedule_ctx(cfg, [](co_any &) {}, vf_nondet("lock", 1)); } catch (const std::exception &) { thrown = true; }
    vf_assert(thrown == bad, "adding to a thread that is not running is not refused, or adding to a running one is");
    if (!thrown) {
        vf_assert(c->env() == a && p_where(a, c) == 1 && p_where(b, c) == 0 && a->ctx_count() == 1, "a bound coroutine is not on its thread exactly once");
        vf_assert(c->test_flag(CO_CTX_FLAG_BIND) && !c->can_move(), "a bound coroutine can be moved");
        a->min_priority__ <= c->priority() ? (void)0 : vf_fail("a bound coroutine is invisible to its thread");
    }
    vf_reach("end");
}
