// C23: N timers with any expiry times (absolute) or intervals (relative),
// started by one coroutine; the real timer thread serves them.
//   STOP   another coroutine stops timer 0 at any moment
//   LOOP   timer 0 repeats and is stopped by its own second callback
//   LATE   timer 1 is not due within the time considered; it is started first or last
//   AGAIN  the callback of timer 0 starts it again once
#include "l1t.h"
using namespace cocpp;
#ifndef N
#define N 2
#endif
static std::shared_ptr<co_timer> t[N];
static long earliest[N];
static int runs[N], want[N];
static bool stopped_early, stopping;
static bool started;
static bool rel, backwards;
static unsigned long iv[N];
static void fired(int i)
{
    vf_assert(vf_clock_now >= earliest[i], "a timer ran before its expiry time");
    runs[i]++;
    vf_assert(runs[i] <= want[i], "a timer ran too often");
    if (i == 0) vf_assert(!stopped_early, "a timer stopped before its expiry ran");
#ifdef LOOP
    if (i == 0) {
        earliest[0] += (long)iv[0] * 1000000;
        if (runs[0] == 2) t[0]->stop(); // further callbacks may be on their way
    }
#endif
#ifdef AGAIN
    if (i == 0 && runs[0] == 1) {
        earliest[0] = rel ? vf_clock_now + (long)iv[0] * 1000000 : earliest[0];
        t[0]->start();
    }
#endif
}
static void *starter(void *)
{
    l1_enter();
    for (int k = 0; k < N; k++) {
        int i = backwards ? N - 1 - k : k;
        if (rel) earliest[i] = vf_clock_now + (long)iv[i] * 1000000;
        t[i]->start();
    }
    started = true;
    return nullptr;
}
static void *stopper(void *)
{
    l1_enter();
    vf_await([](void *) { return started; }, 0);
    t[0]->stop();
    if (vf_clock_now < earliest[0]) stopped_early = true;
    stopping = true;
    return nullptr;
}
static bool all_run(void *)
{
    for (int i = 0; i < N; i++) {
        int w = want[i];
#ifdef LATE
        if (i == N - 1) w = 0;
#endif
#ifdef STOP
        if (i == 0) w = 0;
#endif
#ifdef LOOP
        if (i == 0) w = 2;
#endif
        if (runs[i] < w) return false;
    }
    return true;
}
extern "C" void vf_main()
{
    l1t_setup(9);
#ifdef REL
    rel = true;
#endif
#ifdef LATE
    backwards = vf_concrete(vf_choice("backwards", 2));
#endif
    for (int i = 0; i < N; i++) {
        want[i] = 1;
        co_expire_type type = co_expire_type::once;
#ifdef LOOP
        if (i == 0) { type = co_expire_type::loop; want[i] = L1T_MAX; }
#endif
#ifdef AGAIN
        if (i == 0) want[i] = 2;
#endif
        std::function<void()> f = [i] { fired(i); };
        if (rel) {
#ifdef LATE
            iv[i] = i == N - 1 ? (2l << L1T_CLOCK) / 1000000 + 1 : 1;
#else
            iv[i] = vf_concrete(vf_nondet("interval", L1T_CLOCK - 22));
#endif
            t[i] = co_timer::create(f, type, iv[i]);
        } else {
            earliest[i] = (long)vf_nondet("expiry", L1T_CLOCK - 1);
#ifdef LATE
            if (i == N - 1) earliest[i] += 2l << L1T_CLOCK;
#endif
            t[i] = co_timer::create(f, std::chrono::steady_clock::time_point(std::chrono::nanoseconds(earliest[i])));
        }
        l1t_watch_mutex(t[i]->mutex__);
    }
    l1_ghost(runs, want, stopped_early, stopping, started);
    vf_spawn(starter, 0);
#ifdef STOP
    vf_spawn(stopper, 0);
#endif
    vf_join_all();
    vf_await(all_run, 0);
    vf_join_all();
    vf_reach("end");
}
