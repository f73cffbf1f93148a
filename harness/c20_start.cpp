// C20/C21: a new coroutine on a stack of any size, started by the machine code
// of switch_to.
#include "l2.h"
#include "lift.h"
using namespace cocpp;
static unsigned long from[33], host[8];
extern "C" void vf_main()
{
    co_env *env = l2_env();
    size_t size = 256 + vf_nondet("size", SIZEBITS);
    static char *mem = (char *)vf_mmap(4096 << 1);
    vf_assume(size <= 8192);
    co_ctx_config cfg;
    cfg.stack_size = 0;
    co_ctx *ctx = co_ctx_factory::create_ctx(cfg, [](co_any &) {});
    ctx->set_stack(new co_stack((co_byte *)mem, size));
    env->add_ctx(ctx);
    unsigned long *r = (unsigned long *)ctx->regs();
    unsigned long ip = r[16];
    vf_assert((unsigned long)ctx == (unsigned long)r, "the register record is not at the start of the context");
    if (!vf_symbolic_engine()) r[16] = (unsigned long)vf_landing;
    VfCpu c {};
    c.fl = 0x202;
    c.rdi = (unsigned long)from;
    c.rsi = (unsigned long)r;
    c.rsp = (unsigned long)&host[6];
    vf_cpu_run(c);
    vf_assert(ip == (unsigned long)&co_ctx::real_entry, "a new coroutine does not start in its entry function");
    vf_assert(!vf_symbolic_engine() || c.rip == ip, "a new coroutine does not start in its entry function");
    vf_assert(c.rdi == (unsigned long)ctx, "a new coroutine does not get its own context");
    unsigned long lo = (unsigned long)mem, hi = lo + size;
    vf_assert((c.rsp >= lo + size / 2) & (c.rsp + 8 <= hi), "a new coroutine starts outside its stack");
    vf_assert((c.rsp & 15) == 8, "the stack of a new coroutine is misaligned"); // as after a call
    vf_assert((c.fl & 0x400) == 0, "a new coroutine starts with the direction flag set");
    vf_reach("end");
}
