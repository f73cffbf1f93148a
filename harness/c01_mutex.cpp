// C01: at most one holder at a time; only the holder can unlock.
//   TRY    coroutine 1 chooses between lock and try_lock
//   REFUSE check that a failing try_lock had a reason
//   ROGUE  the last coroutine calls unlock without holding the mutex
//   WATCH  scheduling point at every access to the mutex object
#include "l1.h"
#include "cocpp/sync/co_mutex.h"
using namespace cocpp;
#ifndef NT
#define NT 2
#endif
static co_mutex *m;
static int holders;
static int users, arrivals; // coroutines using the mutex now / ever
static void *worker(void *a)
{
    l1_enter();
    long me = (long)a;
#ifdef ROGUE
    if (me == NT) {
        bool thrown = false;
        int before = holders;
        try { m->unlock(); } catch (std::logic_error &) { thrown = true; }
        vf_assert(thrown, "unlock by a coroutine that does not hold the mutex succeeded");
        (void)before;
        return nullptr;
    }
#endif
    bool locked = true;
#ifdef REFUSE
    bool alone = users == 0;
    int seen = arrivals;
    users++;
    arrivals++;
#endif
#ifdef TRY
    if (me == 1 && vf_choice("op", 2)) {
        locked = m->try_lock();
#ifdef REFUSE
        if (!locked) vf_assert(!(alone && arrivals == seen + 1), "try_lock refused a mutex that nobody holds or is acquiring");
#endif
        if (!locked) vf_reach("try_lock fails");
    } else
#endif
        m->lock();
    if (locked) {
        vf_assert(holders == 0, "two coroutines hold the mutex");
        holders++;
#ifndef COARSE
        vf_yield();
#endif
        vf_assert(holders == 1, "two coroutines hold the mutex");
        holders--;
        m->unlock();
    }
#ifdef REFUSE
    users--;
#endif
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NT);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
    m = new co_mutex;
#ifndef NOKEYS
    l1_keys(NT);
    vf_key(m, sizeof *m);
    l1_key_deque(m->wait_deque__, 4);
#endif
#ifdef WATCH
    vf_watch(m, sizeof *m);
#endif
    for (long i = 1; i <= NT; i++) vf_spawn(worker, (void *)i);
    vf_join_all();
    l1_enter();
    bool thrown = false;
    try { m->unlock(); } catch (std::logic_error &) { thrown = true; }
    vf_assert(thrown, "unlock by a coroutine that does not hold the mutex succeeded");
    vf_assert(m->try_lock(), "mutex still held after every holder unlocked");
    vf_assert(!m->try_lock(), "try_lock took a held mutex");
    vf_reach("end");
}
