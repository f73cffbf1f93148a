// C02: every lock() returns, and coroutines that went to sleep get the mutex
// in the order in which they went to sleep.
extern "C" int vf_tid(void);
static void on_switch(bool waiting);
#define L1_ON_SWITCH(w) on_switch(w)
#include "l1.h"
#include "cocpp/sync/co_mutex.h"
using namespace cocpp;
#ifndef NT
#define NT 3
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
static co_mutex *m;
static bool in_lock[10], asleep[10], before[10][10];
static bool slept_any;
// An event of a coroutine inside lock() that has not gone to sleep yet:
// everybody already asleep precedes it in the queue.
static void awake_event(int b)
{
    for (int a = 1; a <= NT; a++)
        if (a != b) before[a][b] = asleep[a];
}
static void on_switch(bool waiting)
{
    int b = vf_tid();
    if (!in_lock[b]) return;
    if (!waiting) { if (!asleep[b]) awake_event(b); }
    else { asleep[b] = true; }
}
static void *worker(void *a)
{
    l1_enter();
    int b = (int)(long)a;
    for (int r = 0; r < ROUNDS; r++) {
        in_lock[b] = true;
        awake_event(b);
        m->lock();
        in_lock[b] = false;
        if (asleep[b]) {
            vf_reach("slept");
            for (int x = 1; x <= NT; x++)
                if (x != b) vf_assert(!(asleep[x] && before[x][b]), "a coroutine that went to sleep later got the mutex first");
        }
        asleep[b] = false;
        for (int x = 1; x <= NT; x++) before[b][x] = false;
        m->unlock();
    }
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NT);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
    m = new co_mutex;
    l1_keys(NT);
    vf_key(m, sizeof *m);
    l1_key_deque(m->wait_deque__, 4);
    vf_key(asleep, sizeof asleep);
    vf_key(before, sizeof before);
    vf_key(in_lock, sizeof in_lock);
#ifdef WATCH
    vf_watch(m, sizeof *m);
#endif
#ifdef HOLD // the main coroutine holds the mutex until the others are under way
    l1_enter();
    m->lock();
#endif
    for (long i = 1; i <= NT; i++) vf_spawn(worker, (void *)i);
#ifdef HOLD
    vf_yield();
    m->unlock();
#endif
    vf_join_all();
    l1_enter();
    vf_assert(m->try_lock(), "mutex still held after every holder unlocked");
    vf_reach("end");
}
