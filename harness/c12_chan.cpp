// C12/C13/C14: channels.  NP producers push PV values each, NCO consumers
// pop; CAP -1 unbounded, 0 unbuffered, >0 buffered.
//   CAPSYM  the capacity is any int (overrides CAP)
//   CLOSE   another coroutine closes the channel at any moment
//   POPS    number of pops of a consumer
//   ITER    the consumer iterates (the channel is closed by the last producer)
#include "l1.h"
#include "cocpp/event/co_chan.h"
using namespace cocpp;
#ifndef NP
#define NP 1
#endif
#ifndef PV
#define PV 2
#endif
#ifndef NCO
#define NCO 1
#endif
#ifndef CAP
#define CAP 1
#endif
#define NV (NP * PV)
#ifndef POPS // pops of a consumer; what is left is popped at the end
#define POPS (NV / NCO)
#endif
static int cap = CAP;
struct Val {
    int tag;
    unsigned payload;
};
static co_chan<Val> *ch;
static unsigned payload[16];
static bool accepted[16], received[16], refused[16];
static unsigned before[16]; // values surely accepted when the push of this one began
static unsigned accepted_mask, received_mask;
static int pushes_done, pops_started, pops_done;
static bool close_started, close_done;
static int pops_at_return[16];
static bool late[16];
static void got(const Val &v, int pop_no)
{
    vf_assert(v.tag >= 0 && v.tag < NV, "received a value that was not pushed");
    int t = v.tag;
    vf_assert(v.payload == payload[t], "received a value that was not pushed");
    vf_assert(!received[t], "a value was received twice");
    vf_assert(!refused[t], "a refused value was received");
    vf_assert(!late[t], "a value pushed after close was received");
    received[t] = true;
    received_mask |= 1u << t;
#if NCO == 1
    vf_assert((before[t] & ~received_mask) == 0, "values received out of order");
#else
    for (int e = t - t % PV; e < t; e++) // same producer, earlier: some pop has taken it
        vf_assert(accepted[e] || refused[e], "values received out of order");
#endif
    // taken by a pop that began before the push returned
    if (cap == 0 && accepted[t] && !close_started) vf_assert(pop_no < pops_at_return[t], "push returned before its value was taken");
}
static void *producer(void *a)
{
    l1_enter();
    long p = (long)a - 1;
    l1_symmetric((long)a, 1);
    for (int i = 0; i < PV; i++) {
        int t = (int)(p * PV + i);
        before[t] = accepted_mask;
        late[t] = close_done;
        bool ok = ch->push(Val { t, payload[t] });
        if (ok) {
            vf_assert(!late[t], "push after close succeeded");
            accepted[t] = true;
            accepted_mask |= 1u << t;
            pushes_done++;
            pops_at_return[t] = pops_started;
            if (cap > 0) vf_assert(pushes_done - pops_started <= cap, "channel holds more than its capacity");
            if (cap == 0 && !close_started) vf_assert(pushes_done <= pops_started, "push returned before its value was taken");
        } else {
            vf_assert(close_started, "push failed on an open channel");
            vf_assert(!received[t], "a refused value was received");
            refused[t] = true;
        }
    }
#ifdef ITER
    if (p == NP - 1) { close_started = true; ch->close(); close_done = true; }
#endif
    return nullptr;
}
static bool ended;
static void *consumer(void *)
{
    l1_enter();
#ifdef ITER
    int n = 0;
    pops_started = 1;
    for (auto &v : *ch) {
        got(v, n);
        n++;
        pops_started++;
    }
    ended = true;
#else
    for (int i = 0; i < POPS; i++) {
        int no = pops_started++;
        bool was_closed = close_started;
        auto v = ch->pop();
        pops_done++;
        if (v) got(*v, no);
        else {
            vf_assert(close_started, "pop returned nothing on an open channel");
            (void)was_closed;
        }
    }
#endif
    return nullptr;
}
static void *closer(void *)
{
    l1_enter();
    close_started = true;
    ch->close();
    close_done = true;
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(NP + NCO + 1);
#ifdef STALL
    vf_clock_stall = STALL;
#endif
    for (int i = 0; i < NV; i++) payload[i] = (unsigned)vf_nondet("payload", 32);
#ifdef CAPSYM
    cap = (int)vf_nondet("cap", 32);
#endif
    ch = new co_chan<Val>(cap);
    vf_assert(cap < 0 ? ch->max_size() < 0 : ch->max_size() == cap, "max_size() is wrong");
#ifndef NOKEYS
    l1_keys(NP + NCO + 1);
    l1_ghost(accepted, received, refused, before, accepted_mask, received_mask, pushes_done, pops_started, pops_done, close_started, close_done, pops_at_return, late, l1_started);
#endif
    for (long i = 1; i <= NP; i++) vf_spawn(producer, (void *)i);
    for (long i = 1; i <= NCO; i++) vf_spawn(consumer, (void *)i);
#ifdef CLOSE
    vf_spawn(closer, 0);
#endif
    vf_join_all();
    l1_enter();
#ifndef CLOSE
    for (int i = POPS * NCO; i < NV; i++) got(ch->pop().value(), 99);
#endif
#ifdef CLOSE
    // drain what is left
    for (;;) {
        auto v = ch->pop();
        if (!v) break;
        got(*v, 99);
    }
    vf_assert(!ch->push(Val { 0, 0 }), "push after close succeeded");
    vf_assert(!ch->pop(), "pop after draining returned a value");
    vf_assert(ch->closed(), "closed() is wrong");
#endif
    for (int i = 0; i < NV; i++) {
        if (accepted[i]) vf_assert(received[i], "an accepted value was never received");
        else vf_assert(refused[i], "a push did not return");
    }
    vf_assert(ch->empty(), "empty() is wrong");
    vf_reach("end");
}
