// C05: timed locks.  KIND 0 timed_mutex, 1 recursive_timed_mutex,
// 2 shared_timed_mutex exclusive, 3 shared_timed_mutex shared (holder exclusive)
//   SOLO  no other coroutine; the lock is free or held (chosen) throughout
#include "l1.h"
#include "cocpp/sync/co_timed_mutex.h"
#include "cocpp/sync/co_recursive_mutex.h"
#include "cocpp/sync/co_recursive_timed_mutex.h"
#include "cocpp/sync/co_shared_timed_mutex.h"
#include <chrono>
using namespace cocpp;
#ifndef KIND
#define KIND 0
#endif
#ifndef READS
#define READS 2
#endif
#if KIND == 0
typedef co_timed_mutex M;
#elif KIND == 1
typedef co_recursive_timed_mutex M;
#else
typedef co_shared_timed_mutex M;
#endif
#if KIND == 3
#define TRY_UNTIL try_lock_shared_until
#define TRY_FOR try_lock_shared_for
#define TRY try_lock_shared
#define UNLOCK unlock_shared
#else
#define TRY_UNTIL try_lock_until
#define TRY_FOR try_lock_for
#define TRY try_lock
#define UNLOCK unlock
#endif
static M *m;
static int holders;
static long now_, deadline, span = -1;
static int reads;
static bool in_timed;
// coroutine 1 is the only one whose clock matters: any nondecreasing clock,
// but past the deadline at the latest at the READS-th reading
static long clock_fn()
{
    if (vf_tid() != 1 || !in_timed) return now_;
    now_ += (long)vf_nondet("step", 40);
    if (span >= 0 && !reads) deadline = now_ + span; // counts from the first reading
    if (++reads >= READS && now_ < deadline) now_ = deadline;
    return now_;
}
static bool timed_lock()
{
    typedef std::chrono::steady_clock::time_point TP;
    bool got;
    in_timed = true;
    reads = 0;
#ifdef FOR
    span = 1000000 * (long)vf_nondet("duration", 20); // given in milliseconds
    long before = now_;
    got = m->TRY_FOR(std::chrono::milliseconds(span / 1000000));
    deadline = before + span;
#else
    deadline = (long)vf_nondet("deadline", 40);
    got = m->TRY_UNTIL(TP(std::chrono::nanoseconds(deadline)));
#endif
    in_timed = false;
    return got;
}
static bool contended;
static void *locker(void *)
{
    l1_enter();
    bool got = timed_lock();
    if (got) {
        vf_assert(holders == 0, "timed lock succeeded although the lock is held");
        holders++;
        vf_yield();
        vf_assert(holders == 1, "the lock was given to another coroutine after a successful timed lock");
        holders--;
        m->UNLOCK();
    } else {
        vf_assert(now_ >= deadline, "timed lock failed before its deadline");
        vf_assert(contended, "timed lock failed although nobody else used the lock");
        bool thrown = false;
        try { m->UNLOCK(); } catch (std::logic_error &) { thrown = true; }
        vf_assert(thrown, "timed lock failed but the caller holds the lock");
        vf_reach("timeout");
    }
    return nullptr;
}
static void *other(void *)
{
    l1_enter();
    contended = true;
    if (!m->try_lock()) return nullptr;
    vf_assert(holders == 0, "two coroutines hold the lock");
    holders++;
    vf_yield();
    vf_assert(holders == 1, "two coroutines hold the lock");
    holders--;
    m->unlock();
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(2);
    vf_clock_fn = clock_fn;
    m = new M;
    now_ = 1 + (long)vf_nondet("start", 40);
    vf_clock_mode = 3;
    l1_keys(2);
    vf_key(m, sizeof *m);
#ifdef WATCH
    vf_watch(m, sizeof *m);
#endif
#ifdef SOLO
    bool held = vf_choice("held", 2);
    l1_enter();
    if (held) { m->lock(); contended = true; holders = 1; }
    vf_spawn(locker, 0);
    vf_join_all();
    if (held) {
        vf_assert(!m->TRY() || KIND == 1, "lock released by somebody else's timed lock");
        m->unlock();
#if KIND == 1
        m->unlock();
#endif
    }
    vf_reach(held ? "held" : "free");
#else
    vf_spawn(locker, 0);
    vf_spawn(other, 0);
    vf_join_all();
    l1_enter();
    vf_assert(m->try_lock(), "lock still held after everybody released it");
#endif
    vf_reach("end");
}
