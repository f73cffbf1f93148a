// C22: coroutines sharing one stack find its contents unchanged
#include "l2f.h"
using namespace cocpp;
// WORDS: words of a coroutine's own data
static co_env *env;
static co_ctx *ctx[NC];
static bool is_shared[NC], blocked[NC];
static int on_stack = -1, left = NC;
static void body(int me)
{
    unsigned long local[WORDS + 2], copy[WORDS];
    volatile unsigned long *data = local;
    if (vf_symbolic_engine() && is_shared[me]) data = (unsigned long *)env->shared_stack__->stack_top() - WORDS - 1;
    for (int step = 0; step < STEPS; step++)
    {
        // any depth of the stack, any contents
        int depth = is_shared[me] ? 1 + vf_choice("depth", WORDS) : 0;
        volatile unsigned long *sp = data + WORDS - depth;
        for (int i = 0; i < depth; i++) sp[i] = copy[i] = vf_nondet("data", 64);
        if (vf_symbolic_engine() && is_shared[me]) ((unsigned long *)ctx[me]->regs())[15] = (unsigned long)sp;
        int what = vf_choice("yield, block, wake", 3);
        if (what == 1)
        {
            int others = 0;
            for (int i = 0; i < NC; i++) others += i != me && ctx[i] && !blocked[i] && ctx[i]->state() != co_state::finished;
            vf_assume(others > 0);
            blocked[me] = true;
            ctx[me]->enter_wait_resource_state(&blocked[me]);
        }
        if (what == 2)
            for (int i = 0; i < NC; i++)
                if (blocked[i]) { blocked[i] = false; ctx[i]->leave_wait_resource_state(&blocked[i]); }
        env->schedule_switch();
        vf_assert(env->current_ctx() == ctx[me], "another coroutine is current");
        vf_assert(!vf_symbolic_engine() || !is_shared[me] || ((unsigned long *)ctx[me]->regs())[15] == (unsigned long)sp, "the stack pointer moved");
        for (int i = 0; i < depth; i++) vf_assert(sp[i] == copy[i], "stack contents changed while the coroutine was suspended");
    }
    for (int i = 0; i < NC; i++)
        if (blocked[i]) { blocked[i] = false; ctx[i]->leave_wait_resource_state(&blocked[i]); }
    if (--left == 0) env->stop_schedule();
}
extern "C" void vf_main()
{
    env = l2f_env(8 * (WORDS + 3) / 16 * 16);
    for (int i = 0; i < NC; i++) is_shared[i] = i == 0 || vf_concrete(vf_choice("shared", 2));
    for (int i = 0; i < NC; i++) ctx[i] = l2f_ctx(env, [i](co_any &) { body(i); }, is_shared[i]);
    env->schedule_in_this_thread();
    vf_assert(left == 0, "a coroutine did not finish");
    vf_reach("end");
}
