// C08: timed acquisition of a semaphore permit.  One coroutine acquires with a
// deadline (FOR: a duration in milliseconds), another one acquires or releases.
#include "l1.h"
#include "cocpp/sync/co_counting_semaphore.h"
#include <chrono>
using namespace cocpp;
typedef co_counting_semaphore<2> Sem;
static Sem *s;
static long now_, deadline, span = -1;
static int init, what, reads, other_started, other_done, got = -1;
// as in C05: past the deadline at the READS-th reading at the latest
static long clock_fn()
{
    if (vf_tid() != 1) return now_;
    now_ += (long)vf_nondet("step", 40);
    if (span >= 0 && !reads) deadline = now_ + span;
    if (++reads >= READS && now_ < deadline) now_ = deadline;
    return now_;
}
static void *timed(void *)
{
    l1_enter();
#ifdef FOR
    span = 1000000 * (long)vf_nondet("duration", 20);
    long before = now_;
    got = s->try_acquire_for(std::chrono::milliseconds(span / 1000000));
    deadline = before + span;
#else
    deadline = (long)vf_nondet("deadline", 40);
    got = s->try_acquire_until(std::chrono::steady_clock::time_point(std::chrono::nanoseconds(deadline)));
#endif
    if (got)
        vf_assert(init + (what == 1 && other_started) > 0, "a permit was acquired although none was free");
    else {
        vf_assert(now_ >= deadline, "timed acquire failed before its deadline");
        vf_assert(init - (what == 0 && other_started) <= 0, "timed acquire failed although a permit was free");
        vf_reach("timeout");
    }
    return nullptr;
}
static void *other(void *)
{
    l1_enter();
    other_started = 1;
    if (what == 0) other_done = s->try_acquire();
    if (what == 1) s->release(), other_done = 1;
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(2);
    vf_clock_fn = clock_fn;
    vf_clock_mode = 3;
    now_ = 1 + (long)vf_nondet("start", 40);
    init = vf_concrete(vf_choice("init", 2));
    what = vf_concrete(vf_choice("acquire, release, nothing", 3));
    s = new Sem(init);
    l1_keys(2);
    l1_ghost(other_started, other_done, got, reads);
    vf_spawn(timed, 0);
    vf_spawn(other, 0);
    vf_join_all();
    l1_enter();
    reads = 0;
    span = -1;
    int left = init - got + (what == 1) - (what == 0 && other_done);
    vf_assert(left >= 0, "more permits acquired than were ever available");
    for (int i = 0; i < left; i++) vf_assert(s->try_acquire(), "a permit was lost");
    vf_assert(!s->try_acquire(), "a permit appeared");
    vf_reach("end");
}
