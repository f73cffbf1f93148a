// C21: what is mapped for a stack of any size is what is unmapped, once;
// failures to map are reported and leak nothing
#define L2_OWN_MADVISE
#define L2_OWN_MMAP
#include "l2.h"
using namespace cocpp;
#define MAX 3
static unsigned long at[MAX], len[MAX];
static int maps, live, failed;
extern "C" void *__vfs_mmap(void *a, size_t n, int prot, int flags, int fd, long off)
{
    vf_assert((a == nullptr) & (prot == 3) & (fd == -1) & (off == 0) & (flags == 0x22), "stack memory is not private, anonymous and writable");
    if (vf_choice("mmap fails", 2)) { failed++; return (void *)-1; }
    vf_assume((maps < MAX) & (n > 0));
    at[maps] = 0x10000000ul + ((unsigned long)maps << 40);
    len[maps] = n;
    live++;
    return (void *)at[maps++];
}
extern "C" int __vfs_munmap(void *p, size_t n)
{
    for (int i = 0; i < maps; i++)
        if (at[i] == (unsigned long)p)
        {
            vf_assert(len[i] == n, "another size is unmapped than was mapped");
            at[i] = 0;
            live--;
            return 0;
        }
    vf_fail("memory is unmapped that is not mapped");
    return 0;
}
extern "C" int __vfs_madvise(void *p, size_t n, int)
{
    int ok = 0;
    for (int i = 0; i < maps; i++) ok |= (at[i] == (unsigned long)p) & (n <= len[i]);
    vf_assert(ok, "memory outside the new stack is given back");
    return -(int)vf_nondet("fail", 1);
}
extern "C" void vf_main()
{
    vf_clock_private();
    co_ctx_config cfg;
    co_ctx *ctx[2] {};
    for (int i = 0; i < 2; i++)
    {
        unsigned long size = vf_nondet("size", 40);
        vf_assume(size >= 256);
        cfg.stack_size = size;
        cfg.shared_stack = vf_choice("shared", 2);
        int m = maps, f = failed;
        try { ctx[i] = co_ctx_factory::create_ctx(cfg, [](co_any &) {}); }
        catch (const std::exception &) { vf_assert(failed > f, "creation fails without reason"); continue; }
        vf_assert(failed == f, "a failure to map the stack is not reported");
        if (cfg.shared_stack) { vf_assert(maps == m, "a shared-stack coroutine maps its own stack"); continue; }
        vf_assert(maps == m + 1, "no stack was mapped");
        vf_assert((unsigned long)ctx[i]->stack()->stack() == at[m], "the stack is not the mapped memory");
        vf_assert((ctx[i]->stack()->stack_size() == size) & (len[m] >= size), "the stack is smaller than requested");
        vf_assert((unsigned long)ctx[i]->stack()->stack_top() == at[m] + size, "the top of the stack is wrong");
    }
    for (int i = 0; i < 2; i++)
        if (ctx[i]) co_ctx_factory::destroy_ctx(ctx[i]);
    vf_assert(live == 0, "stack memory is leaked");
    vf_reach(failed ? "failed" : "no failure");
}
