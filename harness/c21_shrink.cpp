// C21: which range shrinking a stack gives back, for every stack and stack pointer
#define L2_OWN_MADVISE
#include "l2.h"
using namespace cocpp;
static unsigned long base, size, sp;
static int calls;
extern "C" int __vfs_madvise(void *p, size_t n, int)
{
    unsigned long a = (unsigned long)p;
    vf_assert((a & 4095) == 0, "a range not starting at a page is given back");
    vf_assert((a >= base) & (n <= size) & (a + n <= base + size), "memory outside the stack is given back");
    unsigned long end = (a + n + 4095) & ~4095ul; // whole pages go
    vf_assert((n == 0) | (end <= sp), "live stack data is given back");
    calls++;
    return -(int)vf_nondet("fail", 1);
}
extern "C" void vf_main()
{
    vf_clock_private();
    base = vf_nondet("base", 47) & ~4095ul;
    size = vf_nondet("size", SIZEBITS);
    sp = vf_nondet("sp", 48);
    vf_assume((base >= 4096) & (size >= 256));
    vf_assume((sp >= base) & (sp <= base + size));
    co_ctx_config cfg;
    cfg.stack_size = 0;
    co_ctx *ctx = co_ctx_factory::create_ctx(cfg, [](co_any &) {});
    ctx->set_stack(new co_stack((co_byte *)base, size));
    ((unsigned long *)ctx->regs())[15] = sp;
    for (int i = 0; i < ROUNDS; i++)
    {
        ctx->shrink_stack_counter__ = vf_nondet("counter", 16);
        ctx->shrink_stack();
    }
    vf_reach(calls ? "shrunk" : "not shrunk");
}
