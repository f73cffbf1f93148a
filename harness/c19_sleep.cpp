// C19: a scheduler thread that runs out of work, and another thread that adds a
// coroutine (MODE 0), makes a blocked one ready (1) or stops the thread (2) at
// any moment.  A thread of the program (not the library's) blocks in a coroutine
// operation and another thread unblocks it (4).  Another thread adds the
// coroutine that unblocks the only other one (5).
#include "l2f.h"
using namespace cocpp;
#ifdef UNHELD
#define HELD false
#else
#define HELD true
#endif
static co_env *env;
static co_ctx *first;
static co_ctx *added[N];
static int registered, ran, woken;
template <class M> static void watch_mutex(M &m) { vf_watch((char *)(&m + 1) - 1, 1); } // locking it is a scheduling point
static void *other(void *)
{
    co_manager::instance()->current_env();
#if MODE == 0 || MODE == 5
    for (int i = 0; i < N; i++) env->add_ctx(added[i]);
#elif MODE == 1
    for (int i = 0; i < N; i++)
    {
        vf_await([](void *p) { return registered > (int)(long)p; }, (void *)(long)i);
        first->leave_wait_resource_state(&registered);
    }
#elif MODE == 4
    vf_await([](void *) { return registered > 0; }, nullptr);
    first->leave_wait_resource_state(&registered);
#else
    env->stop_schedule();
#endif
    return nullptr;
}
static void body()
{
#if MODE == 1
    for (int i = 0; i < N; i++)
    {
        first->enter_wait_resource_state(&registered);
        registered++;
        env->schedule_switch();
        woken++;
    }
    env->stop_schedule();
#elif MODE == 5
    if (!ran)
    {
        first->enter_wait_resource_state(&registered);
        registered = 1;
        env->schedule_switch();
        vf_assert(ran, "woken before the other coroutine ran");
    }
    env->stop_schedule();
#else
    for (int i = vf_choice("yields", YIELDS + 1); i > 0; i--) env->schedule_switch();
#endif
}
#if MODE == 4
static void body_of_program()
{
    vf_clock_private();
    env = co_manager::instance()->current_env();
    first = env->current_ctx();
    vf_key(&registered, sizeof registered);
#ifdef SPURIOUS
    vf_cond_spurious = 1;
    vf_key(&vf_cond_spurious, sizeof vf_cond_spurious);
#endif
    watch_mutex(env->schedule_lock__);
    watch_mutex(env->mu_normal_ctx__);
    watch_mutex(env->mu_min_priority__);
    watch_mutex(*env->cv_sleep__._M_mutex);
    watch_mutex(first->flag_manager__.mu__);
    vf_spawn(other, nullptr);
    env->lock_schedule();
    first->enter_wait_resource_state(&registered);
    registered = 1;
    env->unlock_schedule();
    env->schedule_switch();
    vf_assert(first->can_schedule(), "the blocked thread went on");
    vf_assert(env->current_ctx() == first, "another coroutine is current");
    vf_join_all();
    vf_reach("end");
}
#endif
extern "C" void vf_main()
{
#if MODE == 4
    return body_of_program();
#endif
    env = l2f_env(64);
    env->unset_flag(CO_ENV_FLAG_NO_SCHE_THREAD); // as in a thread created by the manager
    first = l2f_ctx(env, [](co_any &) { body(); }, false, 50, HELD);
    for (auto &a : added)
    {
        co_ctx_config c;
        c.stack_size = l2f_stack(256);
        #ifdef HIGH
        c.priority = 0;
#else
        c.priority = 50;
#endif
        a = co_ctx_factory::create_ctx(c, [](co_any &) {
            ran++;
#if MODE == 5
            if (registered) first->leave_wait_resource_state(&registered);
#else
            if (ran == N) env->stop_schedule();
#endif
        });
        a->lock_destroy();
    }
#ifndef NOKEYS
    vf_key(&ran, sizeof ran);
    vf_key(&registered, sizeof ran);
#endif
#ifdef SPURIOUS
    vf_cond_spurious = 1;
    vf_key(&vf_cond_spurious, sizeof vf_cond_spurious);
#endif
    watch_mutex(env->schedule_lock__);
    watch_mutex(env->mu_normal_ctx__);
    watch_mutex(env->mu_min_priority__);
    watch_mutex(*env->cv_sleep__._M_mutex);
#ifdef FLAG
    watch_mutex(first->flag_manager__.mu__);
#endif
    vf_spawn(other, nullptr);
    env->start_schedule_routine__();
    vf_join_all();
    vf_assert(env->state() == co_env_state::destroying, "the thread stopped without being told");
#if MODE == 0 || MODE == 5
    vf_assert(ran == N, "an added coroutine did not run exactly once");
#endif
    vf_reach("end");
}
