// C03: recursive mutex: held until unlocked as often as locked.
#include "l1.h"
#include "cocpp/sync/co_recursive_mutex.h"
using namespace cocpp;
#ifndef NT
#define NT 2
#endif
static co_recursive_mutex *m;
static int holder, depth;
static void acquired(int me)
{
    vf_assert(holder == 0 || holder == me, "two coroutines hold the recursive mutex");
    holder = me;
    depth++;
}
static void release(int me)
{
    vf_assert(holder == me, "another coroutine got the mutex before it was unlocked as often as locked");
    if (--depth == 0) holder = 0;
    m->unlock();
}
static void *worker(void *a)
{
    l1_enter();
    int me = (int)(long)a;
#ifdef ROGUE
    if (me == NT) {
        bool thrown = false;
        try { m->unlock(); } catch (std::logic_error &) { thrown = true; }
        vf_assert(thrown, "unlock by a coroutine that does not hold the recursive mutex succeeded");
        return nullptr;
    }
#endif
    if (me == 1 && vf_choice("first", 2)) {
        if (!m->try_lock()) return nullptr;
    } else
        m->lock();
    acquired(me);
#ifdef NEST
    int n = me <= NEST ? (int)vf_choice("nest", 3) : 0; // 0 none, 1 lock, 2 try_lock
    if (n == 1) { m->lock(); acquired(me); }
    if (n == 2) { vf_assert(m->try_lock(), "try_lock by the holder failed"); acquired(me); }
    vf_yield();
    if (n) {
        release(me);
        vf_yield();
    }
#endif
    release(me);
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NT);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
    m = new co_recursive_mutex;
    l1_keys(NT);
    vf_key(m, sizeof *m);
    l1_key_deque(m->wait_deque__, 4);
#ifdef WATCH
    vf_watch(m, sizeof *m);
#endif
    for (long i = 1; i <= NT; i++) vf_spawn(worker, (void *)i);
    vf_join_all();
    l1_enter();
    bool thrown = false;
    try { m->unlock(); } catch (std::logic_error &) { thrown = true; }
    vf_assert(thrown, "unlock by a coroutine that does not hold the recursive mutex succeeded");
    vf_assert(m->try_lock(), "recursive mutex still held after every holder unlocked");
    vf_reach("end");
}
