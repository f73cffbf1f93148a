// C18: every int as priority, at creation and later.
#include "l2.h"
using namespace cocpp;
static int clamp(int v) { return v < 0 ? 0 : v >= CO_MAX_PRIORITY ? CO_MAX_PRIORITY - 1 : v; }
extern "C" void vf_main()
{
    vf_clock_private();
    co_manager::instance()->current_env();
    int p = (int)vf_nondet("p", 32), q = (int)vf_nondet("q", 32);
    co_ctx_config cfg;
    cfg.stack_size = 0;
    cfg.priority = p;
    co_ctx *c = co_ctx_factory::create_ctx(cfg, [](co_any &) {});
    vf_assert((int)c->priority() == clamp(p), "the initial priority is not clamped");
    int old = -1, now = -1, calls = 0;
    c->set_env(co_manager::instance()->current_env());
    c->priority_changed().sub([&](int o, int n) { old = o; now = n; calls++; });
    c->set_priority(q);
    vf_assert((int)c->priority() == clamp(q), "a changed priority is not clamped");
    vf_assert(calls == (clamp(p) != clamp(q)), "a change was not announced exactly once");
    vf_assert(!calls || (old == clamp(p) && now == clamp(q)), "a change was announced wrongly");
    vf_reach("end");
}
