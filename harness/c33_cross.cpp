// C33: another thread creates a coroutine on a scheduler thread and joins it
// (MODE 0), detaches it (1) or destroys the handle (2), then stops the thread.
#include "l2f.h"
using namespace cocpp;
static co_env *env;
static co_ctx *ctx;
static bool finished_, released;
template <class M> static void watch_mutex(M &m) { vf_watch((char *)(&m + 1) - 1, 1); } // locking it is a scheduling point
static void child()
{
    ctx = env->current_ctx();
    watch_mutex(ctx->flag_manager__.mu__);
    watch_mutex(ctx->finish_lock__);
    watch_mutex(ctx->finished__.mu_cb_list__);
    for (int i = 0; i < YIELDS; i++) this_co::yield();
    finished_ = true;
}
static void busy() // finished coroutines are removed whenever one yields
{
    for (int i = 0; i < BUSY; i++) this_co::yield();
}
static void *other(void *)
{
    co_env *own = co_manager::instance()->current_env();
    watch_mutex(own->schedule_lock__);
    watch_mutex(*own->cv_sleep__._M_mutex);
    {
        co c({[](co_ctx_config &c) { c.bind_env = env; c.priority = 50; c.stack_size = l2f_stack(256); }}, [] { child(); });
        vf_assert(!ctx || vf_is_live(ctx), "a coroutine was destroyed while its handle is held");
#if MODE == 0
        c.join();
        vf_assert(finished_, "join returned before the coroutine finished");
#elif MODE == 1
        c.detach();
#endif
    }
    vf_assert(MODE == 1 || finished_, "the handle was destroyed before the coroutine finished");
#if MODE == 1
    vf_await([](void *) { return finished_; }, nullptr);
#endif
    env->stop_schedule();
    return nullptr;
}
extern "C" void vf_main()
{
    env = l2f_env(64);
    env->unset_flag(CO_ENV_FLAG_NO_SCHE_THREAD); // as in a thread created by the manager
    vf_key(&finished_, sizeof finished_);
    vf_key(&ctx, sizeof ctx);
    watch_mutex(env->schedule_lock__);
    watch_mutex(env->mu_normal_ctx__);
    watch_mutex(*env->cv_sleep__._M_mutex);
    l2f_ctx(env, [](co_any &) { busy(); }, false);
    vf_spawn(other, nullptr);
    env->start_schedule_routine__();
    vf_join_all();
    vf_assert(finished_, "the coroutine did not run");
    vf_assert(!vf_is_live(ctx), "a finished coroutine was not destroyed");
    vf_reach("end");
}
