// C10: NP participants, PH phases; how each takes part is a choice:
// arrive_and_wait, or arrive and later wait with the token, or arrive only.
#include "l1.h"
#include "cocpp/sync/co_barrier.h"
using namespace cocpp;
#ifndef NP
#define NP 2
#endif
#ifndef PH
#define PH 1
#endif
static co_barrier *b;
static int started[8]; // arrivals begun in each phase
static unsigned how[10][4];
static void *part(void *a)
{
    l1_enter();
    int me = (int)(long)a;
    l1_symmetric(me, 1);
    for (int p = 0; p < PH; p++) {
        unsigned h = how[me][p];
        started[p]++;
        if (h == 0) {
            b->arrive_and_wait();
            vf_assert(started[p] == NP, "arrive_and_wait returned before all participants arrived");
        } else {
            auto t = b->arrive();
            if (h == 1) {
                b->wait(std::move(t));
                vf_assert(started[p] == NP, "wait returned before all participants arrived");
            } else if (p + 1 < PH) { // arrives only: it may not take part in the next phase before this one is over
                b->wait(std::move(t));
            }
        }
    }
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NP);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
    b = new co_barrier(NP);
    l1_keys(NP);
    for (int i = 1; i <= NP; i++)
        for (int p = 0; p < PH; p++) how[i][p] = vf_choice("how", 3);
    l1_ghost(how, started, l1_started);
    for (long i = 1; i <= NP; i++) vf_spawn(part, (void *)i);
    vf_join_all();
    vf_reach("end");
}
