// C04: a queue of waiters of every combination of modes behind one holder.
// The waiters queue one after the other (each starts when the previous one is
// asleep); after the holder releases, everything interleaves freely.
extern "C" int vf_tid(void);
static int asleep;
#define L1_ON_SWITCH(w) do { if (w) asleep |= 1 << vf_tid(); } while (0)
#include "l1.h"
#include "cocpp/sync/co_shared_mutex.h"
using namespace cocpp;
#ifndef NT
#define NT 3
#endif
static co_shared_mutex *m;
static int readers, writers;
static unsigned mode[10];
static bool prev_asleep(void *p) { return (asleep >> ((long)p - 1)) & 1; }
static bool all_asleep(void *) { return asleep == (1 << (NT + 1)) - 2; }
static void *worker(void *a)
{
    l1_enter();
    long me = (long)a;
    if (me > 1) vf_await(prev_asleep, a);
    if (mode[me]) {
        m->lock_shared();
        vf_assert(writers == 0, "shared holder next to an exclusive holder");
        readers++;
        vf_yield();
        vf_assert(writers == 0, "exclusive holder next to a shared holder");
        readers--;
        m->unlock_shared();
    } else {
        m->lock();
        vf_assert(writers == 0 && readers == 0, "exclusive holder next to another holder");
        writers++;
        vf_yield();
        vf_assert(writers == 1 && readers == 0, "another holder next to an exclusive holder");
        writers--;
        m->unlock();
    }
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NT);
    vf_clock_stall = 0;
    m = new co_shared_mutex;
    l1_keys(NT);
    vf_key(m, sizeof *m);
    l1_key_deque(m->wait_deque__, 4);
    l1_enter();
    m->lock();
    for (long i = 1; i <= NT; i++) {
        mode[i] = vf_choice("mode", 2);
        vf_spawn(worker, (void *)i);
    }
    vf_key(mode, sizeof mode);
    vf_await(all_asleep, 0);
    m->unlock();
    vf_join_all();
    vf_assert(m->try_lock(), "shared mutex still held after every holder released it");
    vf_reach("end");
}
