// C23: the timer thread ends when the library is shut down at any moment,
// whether or not timers are pending.
#include "l1t.h"
using namespace cocpp;
static std::shared_ptr<co_timer> t;
static void *routine(void *)
{
    l1_enter();
    co_manager::instance()->timer_routine__();
    return nullptr;
}
static void *user(void *)
{
    l1_enter();
    if (t) t->start();
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(9);
    vf_clock_mode = 4;
    vf_clock_now = 0;
    vf_clock_bits = L1T_CLOCK;
    auto *mgr = co_manager::instance();
    l1t_watch_mutex(mgr->mu_timer_queue__);
    vf_watch(&mgr->clean_up__, 1);
    vf_watch(&mgr->timer_queue__, sizeof mgr->timer_queue__);
    if (vf_choice("timer", 2)) {
        std::chrono::steady_clock::time_point d {std::chrono::nanoseconds(vf_nondet("expiry", L1T_CLOCK - 1))};
        t = co_timer::create([] {}, d);
    }
    vf_spawn(routine, 0);
    vf_spawn(user, 0);
    l1_enter();
    mgr->set_clean_up__();
    vf_join_all();
    vf_reach("end");
}
