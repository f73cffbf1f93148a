// C04: readers or one writer; every waiter gets in.
#include "l1.h"
#include "cocpp/sync/co_shared_mutex.h"
using namespace cocpp;
#ifndef NT
#define NT 2
#endif
static co_shared_mutex *m;
static unsigned ops[10];
static int readers, writers;
static int queued;
static bool gate_open(void *p) { return queued >= (int)(long)p; }
static void *worker(void *a)
{
    l1_enter();
    long me = (long)a;
#ifdef ROGUE
    if (me == NT) {
        bool thrown = false;
        try { if (vf_choice("rel", 2)) m->unlock(); else m->unlock_shared(); } catch (std::logic_error &) { thrown = true; }
        vf_assert(thrown, "release by a coroutine that holds nothing succeeded");
        return nullptr;
    }
#endif
#ifdef OPS
    unsigned op = ops[me];
#else
    unsigned op = vf_choice("op", 4); // 0 lock 1 lock_shared 2 try_lock 3 try_lock_shared
#endif
    bool got = true;
    if (op == 0) m->lock();
    else if (op == 1) m->lock_shared();
    else if (op == 2) got = m->try_lock();
    else got = m->try_lock_shared();
    if (!got) return nullptr;
    if (op & 1) {
        vf_assert(writers == 0, "shared holder next to an exclusive holder");
        readers++;
        vf_yield();
        vf_assert(writers == 0, "exclusive holder next to a shared holder");
#ifdef WRONGMODE
        bool thrown = false;
        try { m->unlock(); } catch (std::logic_error &) { thrown = true; }
        vf_assert(thrown, "unlock of a shared hold succeeded");
#endif
        readers--;
        m->unlock_shared();
    } else {
        vf_assert(writers == 0 && readers == 0, "exclusive holder next to another holder");
        writers++;
        vf_yield();
        vf_assert(writers == 1 && readers == 0, "another holder next to an exclusive holder");
#ifdef WRONGMODE
        bool thrown = false;
        try { m->unlock_shared(); } catch (std::logic_error &) { thrown = true; }
        vf_assert(thrown, "unlock_shared of an exclusive hold succeeded");
#endif
        writers--;
        m->unlock();
    }
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NT);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
    m = new co_shared_mutex;
    l1_keys(NT);
    vf_key(m, sizeof *m);
    l1_key_deque(m->wait_deque__, 4);
#ifdef WATCH
    vf_watch(m, sizeof *m);
#endif
#ifdef OPS
    for (int i = 1; i <= NT; i++) ops[i] = vf_choice("op", OPS);
    vf_key(ops, sizeof ops);
#endif
    for (long i = 1; i <= NT; i++) vf_spawn(worker, (void *)i);
    vf_join_all();
    l1_enter();
    bool t1 = false, t2 = false;
    try { m->unlock(); } catch (std::logic_error &) { t1 = true; }
    try { m->unlock_shared(); } catch (std::logic_error &) { t2 = true; }
    vf_assert(t1 && t2, "release of a free shared mutex succeeded");
    vf_assert(m->try_lock(), "shared mutex still held after every holder released it");
    vf_assert(!m->try_lock_shared(), "shared hold granted next to an exclusive holder");
    m->unlock();
    vf_assert(m->try_lock_shared(), "shared mutex still held after every holder released it");
    vf_assert(!m->try_lock(), "exclusive hold granted next to a shared holder");
    vf_reach("end");
}
