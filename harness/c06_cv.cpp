// C06: every notification reaches whom it must, nobody else.
//   NW waiters, one notifier doing OPS notifications (one or all) under the mutex
#include "l1.h"
#include "cocpp/sync/co_condition_variable.h"
#include <mutex>
using namespace cocpp;
#ifndef NW
#define NW 2
#endif
#ifndef OPS
#define OPS 2
#endif
static co_mutex *m;
static co_condition_variable *cv;
static bool waiting[10], due[10], elig[10], returned[10];
static int unclaimed, ones, holder;
static unsigned kinds[8];
static void hold(int me) { vf_assert(holder == 0, "mutex held twice"); holder = me; }
static void drop(int me) { vf_assert(holder == me, "mutex was taken while held"); holder = 0; }
static void *waiter(void *a)
{
    l1_enter();
    int me = (int)(long)a;
    std::unique_lock<co_mutex> lk(*m);
    hold(me);
    waiting[me] = true;
    due[me] = elig[me] = false;
    unclaimed++;
    drop(me);
#ifdef PRED
    bool go = false; (void)go;
#endif
    cv->wait(lk);
    vf_assert(m->owner__ == l1_ctx(me), "wait returned without the mutex");
    hold(me);
    waiting[me] = false;
    returned[me] = true;
    if (due[me]) {
        due[me] = false;
    } else {
        vf_assert(ones > 0 && elig[me], "a coroutine was woken without a notification for it");
        ones--;
    }
    drop(me);
    return nullptr;
}
static void note_all()
{
    for (int w = 1; w <= NW; w++) if (waiting[w]) due[w] = true;
    unclaimed = 0;
    ones = 0;
}
static void *notifier(void *)
{
    l1_enter();
    for (int i = 0; i < OPS; i++) {
        std::unique_lock<co_mutex> lk(*m);
        hold(9);
        if (kinds[i]) {
            note_all();
            cv->notify_all();
        } else {
            if (unclaimed > 0) {
                unclaimed--;
                ones++;
                for (int w = 1; w <= NW; w++) if (waiting[w]) elig[w] = true;
            }
            cv->notify_one();
        }
        drop(9);
    }
    return nullptr;
}
static bool settled(void *) // every notification was delivered, everybody else is waiting
{
    if (ones) return false;
    for (int w = 1; w <= NW; w++) if (due[w] || !(waiting[w] || returned[w])) return false;
    return vf_thread_done(NW + 1);
}
extern "C" void vf_main()
{
    l1_setup(NW + 1);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
    m = new co_mutex;
    cv = new co_condition_variable;
    l1_keys(NW + 1);
    vf_key(m, sizeof *m);
    vf_key(cv, sizeof *cv);
#ifndef SYM // SYM: states that differ only in these are merged, the solver decides
    vf_key(waiting, sizeof waiting);
    vf_key(due, sizeof due), vf_key(elig, sizeof elig), vf_key(returned, sizeof returned);
    vf_key(&unclaimed, sizeof unclaimed), vf_key(&ones, sizeof ones);
#endif
#ifdef WATCH
    vf_watch(cv, sizeof *cv);
#endif
    for (int i = 0; i < OPS; i++) kinds[i] = vf_choice("kind", 2);
#ifndef SYM
    vf_key(kinds, sizeof kinds);
#endif
    for (long i = 1; i <= NW; i++) vf_spawn(waiter, (void *)i);
    vf_spawn(notifier, 0);
    vf_await(settled, 0);
    vf_reach("settled");
    l1_enter();
    {
        std::unique_lock<co_mutex> lk(*m);
        hold(10);
        note_all();
        cv->notify_all();
        drop(10);
    }
    vf_join_all();
    vf_reach("end");
}
