// C33: one coroutine creates others through co, then yields, joins, detaches or
// destroys the handles in any order; everything runs on one scheduler thread.
#include "l2f.h"
using namespace cocpp;
#ifndef PRIORITY
#define PRIORITY 50
#endif
static co_env *env;
static co_ctx *ctx[NC], *maker;
static bool held[NC], shared_stk[NC], finished_[NC];
static int alive = 1;
alignas(co) static char slot[NC][sizeof(co)];
static co &h(int i) { return *(co *)slot[i]; }
static void look() // what must exist, exists
{
    for (int i = 0; i < NC; i++)
        if (ctx[i] && (held[i] | !finished_[i])) vf_assert(vf_is_live(ctx[i]), "a coroutine was destroyed while its handle is held or before it finished");
}
static void end(int i)
{
    if (i >= 0) finished_[i] = true;
    look();
    if (--alive == 0) env->stop_schedule();
}
static void child(int i)
{
    for (int k = vf_choice("yields", YIELDS + 1); k > 0; k--) { this_co::yield(); look(); }
    end(i);
}
static void make(int i)
{
    shared_stk[i] = SHARED && vf_choice("shared", 2);
    alive++;
    new (slot[i]) co({[i](co_ctx_config &c) { c.bind_env = env; c.stack_size = l2f_stack(256); c.shared_stack = shared_stk[i]; c.priority = PRIORITY; }}, [i] { child(i); });
    ctx[i] = h(i).ctx__;
    held[i] = true;
}
static void script()
{
    for (int s = 0; s < OPS; s++)
    {
        look();
        int n = vf_choice("operation", 3 * NC + 1), i = n % NC;
        if (n == 3 * NC) { this_co::yield(); continue; }
        if (n / NC == 0) { vf_assume(!ctx[i]); vf_assume(i == 0 || ctx[i - 1]); make(i); continue; }
        vf_assume(held[i]);
        if (n / NC == 1)
        {
            h(i).join();
            vf_assert(finished_[i], "join returned before the coroutine finished");
            vf_assert(maker->priority() == 50, "waiting changed the waiter's priority");
        }
        else h(i).detach();
        held[i] = false;
        h(i).~co(); // an empty handle
    }
    for (int i = 0; i < NC; i++)
        if (held[i]) { look(); h(i).~co(); vf_assert(finished_[i], "the handle was destroyed before the coroutine finished"); held[i] = false; }
    for (int i = 0; i < NC; i++)
        while (ctx[i] && !finished_[i]) this_co::yield();
    this_co::yield();
    this_co::yield();
    for (int i = 0; i < NC; i++) vf_assert(!ctx[i] || !vf_is_live(ctx[i]), "a finished coroutine that nobody holds was not destroyed");
    end(-1);
}
extern "C" void vf_main()
{
    env = l2f_env(64);
    maker = l2f_ctx(env, [](co_any &) { script(); }, false);
    env->schedule_in_this_thread();
    vf_assert(alive == 0, "the thread stopped before the coroutines finished");
    for (int i = 0; i < NC; i++) vf_assert(!ctx[i] || !vf_is_live(ctx[i]), "a finished coroutine was not destroyed");
    vf_assert(!vf_is_live(maker), "a finished coroutine was not destroyed");
    vf_reach("end");
}
