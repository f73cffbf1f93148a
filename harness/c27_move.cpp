// C27: the manager's periodic work (redistribution, stealing, forced switches,
// removal of surplus threads) with 2 threads in any state and NC coroutines.
#include "c27.h"
#ifndef NC
#define NC 2
#endif
extern "C" bool __vfs__ZN5cocpp5tkillEyyi(unsigned long long, unsigned long long, int) { return true; }
extern "C" long __vfs_syscall(long, ...) { return 0; }
extern "C" void vf_main()
{
    p_setup();
    co_env *e[2] = {p_env(), p_env()};
    co_ctx *c[NC];
    int home[NC];
    unsigned long f[NC];
    for (co_env *x : e) x->set_state(co_env_state::busy);
    for (int i = 0; i < NC; i++) {
        home[i] = (int)vf_concrete(vf_choice("home", 2));
        co_ctx_config cfg;
        cfg.stack_size = 0;
        cfg.priority = 1;
        c[i] = co_ctx_factory::create_ctx(cfg, [](co_any &) {});
        e[home[i]]->move_ctx_to_here(c[i]);
        f[i] = vf_nondet("flags", CO_CTX_FLAG_MAX) & ~(1ul << CO_CTX_FLAG_IDLE);
        *(unsigned long *)&c[i]->flag_manager__.flags__ = f[i];
        c[i]->state_manager__.state__ = (co_state)vf_choice("state", 3);
    }
    co_env_state s[2];
    unsigned long ef[2];
    for (int i = 0; i < 2; i++) {
        p_any(e[i]);
        s[i] = e[i]->state_manager__.state__;
        ef[i] = *(unsigned long *)&e[i]->flag_manager__.flags__;
        vf_assume(s[i] != co_env_state::created || (ef[i] & 1));
    }
    mgr->set_base_schedule_thread_count(1);
    mgr->set_max_schedule_thread_count(vf_nondet("max", 2));
    switch ((int)vf_concrete(vf_choice("work", 4))) {
    case 0: mgr->redistribute_ctx__(); break;
    case 1: mgr->steal_ctx_routine__(); break;
    case 2: mgr->force_schedule__(); break;
    case 3: mgr->destroy_redundant_env__(); break;
    }
    for (int i = 0; i < NC; i++) {
        int n = 0;
        co_env *at = nullptr;
        for (co_env *x : mgr->env_set__.normal_set) if (int k = p_where(x, c[i])) { n += k; at = x; }
        vf_assert(n == 1 && c[i]->env() == at, "a coroutine was lost or duplicated");
        if (at != e[home[i]]) {
            vf_assert(!((f[i] >> CO_CTX_FLAG_BIND) & 1), "a bound coroutine was moved");
            vf_assert(!((f[i] >> CO_CTX_FLAG_SHARED_STACK) & 1), "a shared-stack coroutine was moved");
            for (int k = 0; k < 2; k++) vf_assert(at != e[k] || (s[k] != co_env_state::destroying && !(ef[k] >> CO_ENV_FLAG_EXCLUSIVE & 1) && !(ef[k] & 1)), "a coroutine was moved to an exclusive, stopping or not running thread");
        }
    }
    for (int i = 0; i < 2; i++) {
        if (e[i]->state() == co_env_state::destroying && s[i] != co_env_state::destroying) {
            vf_assert(s[i] == co_env_state::idle && !e[i]->has_ctx(), "a thread with coroutines was stopped");
            vf_assert(!(ef[i] >> CO_ENV_FLAG_CONVERTED & 1) && !(ef[i] >> CO_ENV_FLAG_DONT_AUTO_DESTROY & 1), "a thread that must stay was stopped");
        }
        vf_assert(e[i]->schedule_lock().count() == 0, "the schedule lock was left held");
    }
    vf_reach("end");
}
