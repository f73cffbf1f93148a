// Layer 1 with coroutines created through the public interface: a created
// coroutine is one more engine thread that executes the real co_ctx::real_entry
// on its own env.  (Stack memory is not modelled: stacks have size 0.)
#pragma once
#include "l1.h"
#include "cocpp/core/co_ctx_factory.h"
#include "cocpp/co/co_co.h"
template <class M> static void l1c_watch_mutex(M &m) { vf_watch((char *)(&m + 1) - 1, 1); } // locking it is a scheduling point
static void *l1c_run(void *p)
{
    l1_enter();
    cocpp::co_ctx::real_entry((cocpp::co_ctx *)p);
    vf_fail("a finished coroutine was resumed");
    return nullptr;
}
static cocpp::co_ctx *l1c_create(const cocpp::co_ctx_config &config, std::function<void(cocpp::co_any &)> entry, bool lock_destroy)
{
    cocpp::co_ctx_config c = config;
    c.stack_size = 0;
    cocpp::co_ctx *ctx = cocpp::co_ctx_factory::create_ctx(c, entry);
    if (lock_destroy) ctx->lock_destroy();
    l1c_watch_mutex(ctx->finish_lock__);
    l1c_watch_mutex(ctx->finished__.mu_cb_list__);
    l1c_watch_mutex(ctx->wait_data__.mu);
    vf_watch(&ctx->exception__, sizeof ctx->exception__);
    vf_key(&ctx->flag_manager__, sizeof ctx->flag_manager__);
    vf_key(&ctx->state_manager__.state__, sizeof ctx->state_manager__.state__);
    int t = vf_spawn(l1c_run, ctx);
    ctx->set_env(l1_env[t]);
    l1_env[t]->curr_ctx__ = ctx;
    return ctx;
}
