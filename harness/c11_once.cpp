// C11: NT coroutines call co_call_once on a flag chosen out of two.
#include "l1.h"
#include "cocpp/sync/co_call_once.h"
using namespace cocpp;
#ifndef NT
#define NT 3
#endif
static co_once_flag flag[2];
static int runs[2], calls[2], returned;
static unsigned which[10];
static uint64_t arg[10];
static void body(int f, uint64_t v, uint64_t &r, int me)
{
    vf_assert(v == arg[me] && r == arg[me], "argument changed on its way to the function");
    runs[f]++;
    vf_yield();
    r = ~v;
}
static void *worker(void *a)
{
    l1_enter();
    int me = (int)(long)a;
    int f = which[me];
    calls[f]++;
    uint64_t ref = arg[me];
    int before = runs[f];
    co_call_once(flag[f], body, f, arg[me], ref, me);
    vf_assert(before == 0 || ref == arg[me], "function ran again");
    vf_assert(runs[f] == 1, "function not run exactly once");
    uint64_t keep = ref;
    co_call_once(flag[f], body, f, arg[me], ref, me);
    vf_assert(keep == ref, "function ran again");
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NT);
    for (int i = 1; i <= NT; i++) {
        which[i] = vf_choice("which", 2);
        arg[i] = vf_nondet("arg", 64);
    }
    vf_key(which, sizeof which);
    vf_key(runs, sizeof runs);
    vf_key(flag, sizeof flag);
    l1_ghost(calls);
#ifdef WATCH
    vf_watch(flag, sizeof flag);
#endif
    for (long i = 1; i <= NT; i++) vf_spawn(worker, (void *)i);
    vf_join_all();
    for (int f = 0; f < 2; f++) vf_assert(runs[f] == (calls[f] > 0), "function not run exactly once");
    vf_reach("end");
}
