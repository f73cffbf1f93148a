// C09: latch.  Coroutines 1..NC count down by chosen amounts, NWT wait.
#include "l1.h"
#include "cocpp/sync/co_latch.h"
using namespace cocpp;
#ifndef NC
#define NC 2
#endif
#ifndef NWT
#define NWT 1
#endif
static co_latch *l;
static long expected, started, done;
static unsigned amount[10];
static void *counter(void *a)
{
    l1_enter();
    long n = amount[(long)a];
    started += n;
    bool both = vf_choice("aaw", 2) && (long)a == 1;
    if (both) {
        l->arrive_and_wait(n);
        vf_assert(started >= expected, "arrive_and_wait returned before the count was reached");
    } else {
        l->count_down(n);
    }
    done += n;
    return nullptr;
}
static void *waiter(void *)
{
    l1_enter();
    bool was_open = done >= expected, could = started >= expected;
    bool open = l->try_wait();
    if (open) vf_assert(started >= expected, "try_wait says open before the count was reached");
    else vf_assert(!was_open, "try_wait says closed after the count was reached");
    (void)could;
    l->wait();
    vf_assert(started >= expected, "wait returned before the count was reached");
    l->wait(); // stays open
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NC + NWT);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
    long sum = 0;
    for (int i = 1; i <= NC; i++) { amount[i] = vf_choice("amount", 3); sum += amount[i]; }
    vf_key(amount, sizeof amount);
    expected = sum;
    l = new co_latch(expected);
    l1_keys(NC + NWT);
    l1_ghost(started, done);
#ifdef WATCH
    vf_watch(l, sizeof *l);
#endif
    for (long i = 1; i <= NC; i++) vf_spawn(counter, (void *)i);
    for (long i = 1; i <= NWT; i++) vf_spawn(waiter, (void *)i);
    vf_join_all();
    l1_enter();
    vf_assert(l->try_wait(), "latch closed after all arrivals");
    l->wait();
    // below zero
    bool thrown = false;
    try { l->count_down(1 + vf_nondet("over", 60)); } catch (std::logic_error &) { thrown = true; }
    vf_assert(thrown, "counting an open latch down did not throw");
    vf_assert(l->try_wait(), "a refused count_down changed the latch");
    // a fresh latch: any count, any amount
    long c = (long)vf_nondet("c", 62), k = (long)vf_nondet("k", 62);
    co_latch f(c);
    thrown = false;
    try { f.count_down(k); } catch (std::logic_error &) { thrown = true; }
    vf_assert(thrown == (k > c), "count_down throws exactly when it would go below zero");
    vf_assert(f.try_wait() == (thrown ? c == 0 : c == k), "latch open exactly when the count is reached");
    if (thrown) {
        f.count_down(c);
        vf_assert(f.try_wait(), "a refused count_down changed the latch");
    }
    vf_reach("end");
}
