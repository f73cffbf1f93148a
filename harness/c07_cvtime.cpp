// C07: timed and predicate waits, with the real timers.
//   MODE 0  a coroutine waits with a deadline, ROUNDS times; NOTIFY: another one
//           notifies (one or all) under the mutex
//        1  the same with a predicate (flag), which another coroutine sets and notifies
//        2  untimed predicate wait; the flag is set (and notified) at any moment
//   OTHER   one more coroutine waits without a deadline
//   FOR     the time is a duration in microseconds
//   DESTROY the condition variable is destroyed as soon as the wait is over
#include "l1t.h"
#include "cocpp/sync/co_condition_variable.h"
#include <mutex>
using namespace cocpp;
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifdef FOR
#define FORBITS 12
#else
#define FORBITS 1
#endif
#ifndef MODE
#define MODE 0
#endif
static co_mutex *m;
static co_condition_variable *cv;
static long deadline[ROUNDS];
static int in_wait;        // number of the wait the coroutine is in, 0: none
static bool must_be_true;  // it was notified before its deadline
static int claims;         // notifications that may make a timed wait return true
static bool flag, other_waiting, other_due, waiter_over;
static unsigned kind;
typedef std::chrono::steady_clock::time_point tp;
static void *waiter(void *)
{
    l1_enter();
    std::unique_lock<co_mutex> lk(*m);
    for (int r = 0; r < ROUNDS; r++) {
        tp d {std::chrono::nanoseconds(deadline[r])};
        in_wait = r + 1;
        must_be_true = false;
        bool had = flag;
#ifdef FOR
        std::chrono::microseconds us(deadline[r]);
        deadline[r] = vf_clock_now + 1000 * deadline[r];
        vf_assume(deadline[r] < 1l << (L1T_CLOCK - 1));
#define UNTIL(...) wait_for(lk, us, ##__VA_ARGS__)
#else
#define UNTIL(...) wait_until(lk, d, ##__VA_ARGS__)
#endif
#if MODE == 0
        bool ok = cv->UNTIL();
        (void)had;
        vf_assert(ok || vf_clock_now >= deadline[r], "a timed wait timed out before its deadline");
        vf_assert(ok || !must_be_true, "a notified wait reported a timeout");
        if (ok) {
            vf_assert(claims > 0, "a wait that was not notified did not report a timeout");
            claims--;
        }
#elif MODE == 1
        bool ok = cv->UNTIL([] { return flag; });
        vf_assert(ok == flag, "a predicate wait returned something else than the predicate");
        vf_assert(ok || vf_clock_now >= deadline[r], "a timed wait timed out before its deadline");
        vf_assert(ok || !had, "a predicate wait did not see that the predicate held");
#else
        cv->wait(lk, [] { return flag; });
        (void)had;
        vf_assert(flag, "a predicate wait returned before the predicate held");
#endif
        vf_assert(lk.owns_lock() && m->owner__ == l1_env[vf_tid()]->current_ctx(), "wait returned without the mutex");
        in_wait = 0;
    }
#ifdef DESTROY
    delete cv;
    cv = nullptr;
#endif
    waiter_over = true;
    return nullptr;
}
static void *notifier(void *)
{
    l1_enter();
    std::unique_lock<co_mutex> lk(*m);
    flag = true;
    bool w = in_wait != 0;
    int r = in_wait - 1;
    claims++;
    if (kind) {
        if (other_waiting) other_due = true;
        cv->notify_all();
    } else {
        cv->notify_one();
    }
#if MODE == 0 && !defined(OTHER)
    if (w && vf_clock_now < deadline[r]) must_be_true = true;
    if (!w) claims--; // nobody was waiting
#endif
    (void)w; (void)r;
    return nullptr;
}
#ifdef OTHER
static bool other_over;
static void *other(void *)
{
    l1_enter();
    std::unique_lock<co_mutex> lk(*m);
    other_waiting = true;
    cv->wait(lk);
    other_waiting = false;
    vf_assert(other_due || claims > 0, "an untimed wait returned without a notification");
    if (!other_due) claims--;
    other_over = true;
    return nullptr;
}
#endif
extern "C" void vf_main()
{
    l1t_setup(9);
    m = new co_mutex;
    cv = new co_condition_variable;
    kind = vf_choice("kind", 2);
    for (int r = 0; r < ROUNDS; r++) deadline[r] = (long)vf_nondet("deadline", L1T_CLOCK - (FORBITS));
    l1_keys(9);
    l1_ghost(in_wait, must_be_true, claims, flag, other_waiting, other_due, waiter_over, kind);
    vf_spawn(waiter, 0);
#ifdef NOTIFY
    vf_spawn(notifier, 0);
#endif
#ifdef OTHER
    vf_spawn(other, 0);
    vf_await([](void *) { return waiter_over && (other_over || other_waiting); }, 0);
    l1_enter();
    {
        std::unique_lock<co_mutex> lk(*m);
        if (other_waiting) other_due = true;
        cv->notify_all();
    }
#endif
    vf_join_all();
    vf_reach("end");
}
