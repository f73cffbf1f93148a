// Layer 2 with running coroutines: the real scheduling loop and the real
// coroutine entry run; the register switch itself (switch_to, see C20) is the
// engine's, natively it is the real one.
#pragma once
#include "l2.h"
#include <mutex>
extern "C" void __vfs___once_proxy(void) { std::__once_call(); } // as in libstdc++
// natively coroutines need larger stacks than in the engine
static size_t l2f_stack(size_t n) { return vf_symbolic_engine() ? n : 1 << 18; }
static cocpp::co_env *l2f_env(size_t shared)
{
    cocpp::co_env *env = l2_env();
    env->shared_stack_size__ = l2f_stack(shared);
    return env;
}
static cocpp::co_ctx *l2f_ctx(cocpp::co_env *env, std::function<void(cocpp::co_any &)> f, bool shared, int priority = 50, bool lock = false)
{
    cocpp::co_ctx_config c;
    c.stack_size = l2f_stack(256);
    c.shared_stack = shared;
    c.priority = priority;
    c.bind_env = env;
    return cocpp::co_manager::instance()->create_and_schedule_ctx(c, f, lock);
}
