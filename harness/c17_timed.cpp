// C17: a coroutine waits for another one with any timeout; finish, expiry and
// falling asleep in every order.  AGAIN: after a timeout it waits once more.
#include "l1t.h"
#include "l1c.h"
using namespace cocpp;
static int done;
static unsigned long value;
static long t;
static co_ctx *target;
static void *waiter(void *)
{
    l1_enter();
    alignas(co) char hb[sizeof(co)];
    co &h = *(co *)hb;
    h.ctx__ = target;
    long from = vf_clock_now;
#ifdef UNTIL
    auto r = h.wait_until(std::chrono::steady_clock::time_point(std::chrono::nanoseconds(t)));
    from = 0;
#elif defined(MICRO)
    vf_assume(from + 1000 * t < 1l << (L1T_CLOCK - 1));
    auto r = h.wait_for(std::chrono::microseconds(t));
    t *= 1000;
#else
    auto r = h.wait_for(std::chrono::nanoseconds(t));
#endif
    if (r) {
        vf_assert(done, "a result although the coroutine has not finished");
        vf_assert((unsigned long)*r == value, "another result than the function returned");
        vf_reach("result");
    } else {
        vf_assert(vf_clock_now >= from + t, "timed out too early");
        vf_reach("timeout");
    }
    vf_assert(l1_ctx(vf_tid())->can_schedule(), "a coroutine that runs is marked as waiting");
#ifdef AGAIN
    if (!r) vf_assert(h.wait<unsigned long>() == value, "the second wait yielded another value");
#endif
#ifdef DESTROY
    if (r) { // join: the coroutine is released and its memory reclaimed
        while (!vf_thread_done(2)) this_co::yield();
        co_ctx_factory::destroy_ctx(target);
    }
#endif
#ifdef GONE // the waiter ends, before or after the coroutine it waited for
    co_ctx *me = l1_ctx(vf_tid());
    l1_env[vf_tid()]->curr_ctx__ = nullptr;
    co_ctx_factory::destroy_ctx(me);
#endif
    return nullptr;
}
extern "C" void vf_main()
{
    l1t_setup(9);
    value = vf_nondet("value", 64);
#ifdef MICRO
    t = (long)vf_nondet("time", L1T_CLOCK - 12);
#else
    t = (long)vf_nondet("time", L1T_CLOCK - 1) - (1l << (L1T_CLOCK - 3));
#endif
    l1_keys(9);
    l1_ghost(done);
    target = l1c_create({}, [](co_any &ret) { done = 1; ret = value; }, true);
    vf_spawn(waiter, 0);
    vf_join_all();
    vf_reach("end");
}
