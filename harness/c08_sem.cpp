// C08: permits are conserved.  NA acquirers take one permit each, NR
// releasers give UPD permits each; NA == NR*UPD, so nobody may stay blocked.
#include "l1.h"
#include "cocpp/sync/co_counting_semaphore.h"
#include "cocpp/sync/co_binary_semaphore.h"
using namespace cocpp;
#ifndef MAXV
#define MAXV 2
#endif
#ifndef NA
#define NA 2
#endif
#ifndef NR
#define NR 1
#endif
#ifndef UPD
#define UPD 2
#endif
typedef co_counting_semaphore<MAXV> Sem;
static Sem *s;
static long init;
static long acq_started, acq_done, rel_started, rel_done, refused;
static void took()
{
    acq_done++;
    vf_assert(acq_done <= init + rel_started, "more permits acquired than were ever available");
}
static void *acquirer(void *a)
{
    l1_enter();
    acq_started++;
#ifdef TRY
    if ((long)a == 1) { // try_acquire: may fail only if no permit could be free
        long least = init + rel_done - acq_started; // permits surely free during the call, without ours
        bool got = s->try_acquire();
        if (got) took();
        else {
            vf_assert(least + 1 <= 0 || acq_started > 1, "try_acquire failed although a permit was free");
            vf_assert(init + rel_done < NA || acq_started > init + rel_done, "try_acquire failed although a permit was free");
            refused++;
            acq_started--;
        }
        return nullptr;
    }
#endif
    s->acquire();
    took();
    return nullptr;
}
static void *releaser(void *)
{
    l1_enter();
    rel_started += UPD;
    s->release(UPD);
    rel_done += UPD;
    vf_assert(init + rel_done - acq_started <= MAXV, "more free permits than the maximum");
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NA + NR);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
#ifdef TRY
    init = 1 + vf_choice("init", MAXV); // at least one: a failed try must not block the releaser
    vf_assume(init <= MAXV - (long)UPD + 1 || 1);
#else
    init = vf_choice("init", MAXV + 1);
#endif
#ifdef INIT_LOW
    vf_assume(init + NR * UPD <= MAXV);
#endif
    init = (long)vf_concrete(init);
    s = new Sem(init);
    l1_keys(NA + NR);
    l1_ghost(acq_started, acq_done, rel_started, rel_done, refused);
#ifdef WATCH
    vf_watch(s, sizeof *s);
#endif
    for (long i = 1; i <= NA; i++) vf_spawn(acquirer, (void *)i);
    for (long i = 1; i <= NR; i++) vf_spawn(releaser, (void *)i);
    vf_join_all();
    l1_enter();
    long left = init + rel_done - acq_done;
    vf_assert(left >= 0 && left <= MAXV, "free permits out of range");
    for (long i = 0; i < left; i++) vf_assert(s->try_acquire(), "try_acquire failed although a permit was free");
    vf_assert(!s->try_acquire(), "try_acquire succeeded although no permit was free");
    vf_reach("end");
}
