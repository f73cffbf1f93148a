// C27: a coroutine is created while the manager removes surplus idle threads.
#define L2_MUTEX_VISIBLE 0
#include "c27.h"
static co_env *e[2];
static co_ctx *made;
static bool failed;
static void *creator(void *)
{
    current_env__ = e[1];
    co_ctx_config cfg;
    cfg.stack_size = 4096;
    try { made = mgr->create_and_schedule_ctx(cfg, [](co_any &) {}, true); } catch (const std::exception &) { failed = true; }
    return nullptr;
}
static void *remover(void *)
{
    current_env__ = e[1];
    mgr->destroy_redundant_env__();
    return nullptr;
}
template <class M> static void watch_mutex(M &m) { vf_watch((char *)(&m + 1) - 1, 1); }
extern "C" void vf_main()
{
    p_setup();
    for (auto &x : e) { x = p_env(); x->set_state(co_env_state::idle); }
    e[1]->set_flag(CO_ENV_FLAG_EXCLUSIVE); // the env these threads belong to
    mgr->set_base_schedule_thread_count(1);
    mgr->set_max_schedule_thread_count(1);
    watch_mutex(mgr->env_set__.normal_lock);
    watch_mutex(e[0]->schedule_lock());
    watch_mutex(e[0]->mu_normal_ctx__);
    vf_key(&e[0]->state_manager__.state__, 1);
    vf_spawn(creator, 0);
    vf_spawn(remover, 0);
    vf_join_all();
    vf_assert(!failed, "a coroutine could not be created");
    vf_assert(made->env()->state() != co_env_state::destroying, "a coroutine was placed on a thread that is stopping");
    vf_reach("end");
}
