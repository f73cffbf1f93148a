// C09: wait group of NC members and NWT waiters.
#include "l1.h"
#include "cocpp/sync/co_wait_group.h"
using namespace cocpp;
#ifndef NC
#define NC 2
#endif
#ifndef NWT
#define NWT 1
#endif
static co_wait_group *g;
static int started;
static void *member(void *)
{
    l1_enter();
    started++;
    g->done();
    return nullptr;
}
static void *waiter(void *)
{
    l1_enter();
    g->wait();
    vf_assert(started == NC, "wait returned before everybody was done");
    g->wait();
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NC + NWT);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
    g = new co_wait_group(NC);
    l1_keys(NC + NWT);
    for (long i = 1; i <= NC; i++) vf_spawn(member, 0);
    for (long i = 1; i <= NWT; i++) vf_spawn(waiter, 0);
    vf_join_all();
    l1_enter();
    g->wait();
    delete g;
    vf_reach("end");
}
