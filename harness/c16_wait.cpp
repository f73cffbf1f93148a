// C16: a coroutine with any arguments that returns any value or throws; NW
// others wait for it at any moment, its handle is then joined (or detached).
#include "l1c.h"
using namespace cocpp;
#ifndef NW
#define NW 1
#endif
extern "C" co_ctx *__vfo__ZN5cocpp10co_manager23create_and_schedule_ctxERKNS_13co_ctx_configESt8functionIFvRNS_6co_anyEEEb(
    co_manager *, const co_ctx_config *c, std::function<void(co_any &)> *entry, bool lock)
{
    return l1c_create(*c, *entry, lock);
}
static int runs, done, caught, returned;
static unsigned long a1, value;
static unsigned char a2;
static bool throws;
static co *target;
struct Err { unsigned long v; };
static unsigned long body(unsigned long x, unsigned char y)
{
    runs++;
    vf_assert(x == a1 && y == a2, "the function got other arguments than those given");
    this_co::yield();
    bool self = false;
    try { CoCurrentEnv()->wait_ctx(CoCurrentCtx()); } catch (const std::runtime_error &) { self = true; }
    vf_assert(self, "waiting for oneself did not throw");
    done = 1;
    if (throws) throw Err {value};
    return value;
}
static void *waiter(void *)
{
    l1_enter();
    l1_ctx(vf_tid())->set_priority(7);
    size_t priority = l1_ctx(vf_tid())->priority();
    try {
        if (throws) target->wait<void>();
        else vf_assert(target->wait<unsigned long>() == value, "wait yielded another value than the function returned");
        returned++;
    } catch (const Err &e) {
        vf_assert(throws && e.v == value, "another exception than the function threw");
        caught++;
    }
    vf_assert(done, "wait returned before the function finished");
    vf_assert(l1_ctx(vf_tid())->priority() == priority, "waiting changed the waiter's priority");
    vf_assert(l1_ctx(vf_tid())->can_schedule(), "a coroutine that runs is marked as waiting");
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NW + 1);
    l1_keys(NW + 1);
    l1_ghost(runs, done, caught, returned);
    a1 = vf_nondet("a1", 64);
    a2 = (unsigned char)vf_nondet("a2", 8);
    value = vf_nondet("value", 64);
    throws = vf_concrete(vf_choice("throws", 2));
    l1_enter();
    {
        co c([](unsigned long x, unsigned char y) { return body(x, y); }, a1, a2);
        co_ctx *ctx = c.ctx__;
        alignas(co) char h[sizeof(co)]; // the waiters' reference to the handle
        target = (co *)h;
        target->ctx__ = ctx;
#ifdef DETACH
        co d(std::move(c));
        d.detach();
        vf_assert(ctx->can_destroy(), "a detached coroutine cannot be destroyed");
        vf_join_all();
        vf_assert(done, "a detached coroutine did not run to completion");
#else
        for (long i = 0; i < NW; i++) vf_spawn(waiter, (void *)i);
        try {
            c.join();
            returned++;
        } catch (const Err &e) {
            vf_assert(throws && e.v == value, "another exception than the function threw");
            caught++;
        }
        vf_assert(done, "join returned before the function finished");
        vf_assert(ctx->can_destroy() && c.ctx__ == nullptr, "join did not release the coroutine");
        c.join(); // nothing left to wait for
        vf_join_all();
        vf_assert(caught == (throws ? 1 : 0), "the exception was not delivered exactly once");
        vf_assert(caught + returned == NW + 1, "a wait is missing");
#endif
        vf_assert(runs == 1, "the function did not run exactly once");
    }
    vf_reach("end");
}
