// Layer 2: the real co_env and co_manager code, no coroutine model.  Only the
// manager's background threads and signal handlers are not started.
#pragma once
#include "vf.h"
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_ctx_factory.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_env_factory.h"
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_stack.h"
#include "cocpp/core/co_stack_factory.h"
#include "cocpp/core/co_vos.h"
#include "cocpp/co/co_co.h"
#include <stdexcept>
extern "C" {
extern int vf_clock_mode;
#ifndef L2_MUTEX_VISIBLE
#define L2_MUTEX_VISIBLE 0
#endif
int vf_mutex_visible = L2_MUTEX_VISIBLE, vf_cond_spurious = 0;
void vf_clock_private(void);
unsigned __vfs__ZNSt6thread20hardware_concurrencyEv(void) { return 2; }
void __vfo__ZN5cocpp10co_manager24create_background_task__Ev(cocpp::co_manager *) {}
#ifndef L2_OWN_MMAP
void *__vfs_mmap(void *, size_t n, int, int, int, long) { return vf_mmap(n); }
int __vfs_munmap(void *p, size_t n) { return vf_munmap(p, n); }
#endif
#ifndef L2_OWN_MADVISE
int __vfs_madvise(void *, size_t, int) { return 0; }
#endif
void __vfs__ZN5cocpp21set_up_signal_handlerERKSt6vectorIiSaIiEE(const void *) {}
}
// an env without thread that accepts coroutines
static cocpp::co_env *l2_env()
{
    vf_clock_private();
    auto *env = cocpp::co_manager::instance()->current_env();
    env->set_state(cocpp::co_env_state::idle);
    return env;
}
static cocpp::co_ctx *l2_ctx(cocpp::co_env *env, int priority)
{
    cocpp::co_ctx_config c;
    c.stack_size = 4096;
    c.priority = priority;
    c.bind_env = env;
    return cocpp::co_manager::instance()->create_and_schedule_ctx(c, [](cocpp::co_any &) {}, true);
}
