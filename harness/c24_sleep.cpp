// C24: N coroutines sleep for any duration (UNTIL: until any time), zero,
// past and equal ones included, with the real timers.
#include "l1t.h"
#include "cocpp/co/co_co.h"
using namespace cocpp;
#ifndef N
#define N 1
#endif
static long t[N];
static void *sleeper(void *a)
{
    l1_enter();
    int i = (int)(long)a;
    long from = vf_clock_now;
#ifdef UNTIL
    (void)from;
    std::chrono::steady_clock::time_point d {std::chrono::nanoseconds(t[i])};
    this_co::sleep_until(d);
    vf_assert(vf_clock_now >= t[i], "sleep_until returned before its deadline");
#else
    this_co::sleep_for(std::chrono::nanoseconds(t[i]));
    vf_assert(vf_clock_now >= from + t[i], "sleep_for returned too early");
#endif
    vf_assert(l1_env[vf_tid()]->current_ctx()->can_schedule(), "a coroutine that runs is marked as waiting");
    return nullptr;
}
extern "C" void vf_main()
{
    l1t_setup(9);
    for (int i = 0; i < N; i++) t[i] = (long)vf_nondet("time", L1T_CLOCK - 1) - (1l << (L1T_CLOCK - 3));
    l1_keys(9);
    for (long i = 0; i < N; i++) vf_spawn(sleeper, (void *)i);
    vf_join_all();
    vf_reach("end");
}
