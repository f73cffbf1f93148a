// C28: a preemption request with any machine context, any nesting of guards and
// locks, any of the coroutines ready.
#include "l2.h"
#include "cocpp/exception/co_exception.h"
using namespace cocpp;
#define REGW 18 // general registers, ip, flags
static co_env *env;
static co_ctx *ctx[NC];
static unsigned long mc[REGW], mc0[REGW], regs0[NC + 1][REGW];
static unsigned long *regs(int i) { return (unsigned long *)(i == NC ? env->idle_ctx__ : ctx[i])->regs(); }
static void *holder(void *) { env->lock_schedule(); return nullptr; }
extern "C" void vf_main()
{
    env = l2_env();
    for (int i = 0; i < NC; i++) ctx[i] = l2_ctx(env, 50);
    for (int i = 0; i <= NC; i++)
        for (int k = 0; k < REGW; k++) regs(i)[k] = regs0[i][k] = vf_nondet("saved", 64);
    for (int k = 0; k < REGW; k++) mc[k] = mc0[k] = vf_nondet("machine", 64);
    // ctx[0] runs; the others are ready or blocked, it may be about to block
    env->curr_ctx__ = ctx[0];
    ctx[0]->set_state(co_state::running);
    bool ready[NC], any = false;
    for (int i = 0; i < NC; i++)
    {
        ready[i] = !vf_concrete(vf_choice("blocked", 2));
        if (!ready[i]) ctx[i]->set_flag(CO_CTX_FLAG_WAITING);
        any |= ready[i];
    }
    vf_assume(any);
    int guards = 0, what = vf_concrete(vf_choice("region", 4));
    if (what == 1)
        for (guards = 1 + vf_concrete(vf_choice("guards", 2)); env->schedule_lock().count() < guards;) env->schedule_lock().increate_count();
    if (what == 2) env->lock_schedule();
    if (what == 3)
    {
        int t = vf_spawn(holder, nullptr);
        vf_await([](void *t) { return (bool)vf_thread_done((int)(long)t); }, (void *)(long)t);
        if (vf_concrete(vf_choice("count not visible yet", 2))) env->schedule_lock().decreate_count();
    }
    long count = env->schedule_lock().count();
    switch_from_outside((sigcontext_64 *)mc);
    vf_assert(env->schedule_lock().count() == count, "the preemption depth changed");
    int next = -1;
    for (int i = 0; i < NC; i++)
        if (env->curr_ctx__ == ctx[i]) next = i;
    vf_assert(next >= 0, "no coroutine is current");
    if (what) vf_assert(next == 0, "preempted inside a region that disabled it");
    else vf_assert(ready[next], "a blocked coroutine was chosen");
    for (int i = 0; i <= NC; i++)
    {
        const unsigned long *want = i == 0 && next != 0 ? mc0 : regs0[i];
        for (int k = 0; k < REGW; k++) vf_assert(regs(i)[k] == want[k], i == 0 && next ? "the interrupted context was not saved exactly" : "the saved context of another coroutine was changed");
    }
    for (int k = 0; k < REGW; k++) vf_assert(mc[k] == (next ? regs0[next] : mc0)[k], "not exactly the context of the next coroutine was installed");
    for (int i = 0; i < NC; i++)
        vf_assert((ctx[i]->state() == co_state::running) == (i == next), "the states do not show which coroutine runs");
    if (!what)
    {
        vf_assert(env->try_lock_schedule(), "the schedule lock was not released");
        env->unlock_schedule();
        vf_reach(next ? "preempted" : "continues");
    }
    else vf_reach("refused");
}
