// C25: any sequence of OPS operations (subscribe, unsubscribe any handle,
// publish any argument) on one event, against a reference list.
//   REENT  callbacks may unsubscribe a callback or subscribe another one while
//          the event is being published
#include "vf.h"
#include "cocpp/event/co_event.h"
using namespace cocpp;
#ifndef OPS
#define OPS 5
#endif
#ifdef REENT
extern "C" { int vf_mutex_visible = 0, vf_cond_spurious = 0; unsigned __vfs__ZNSt6thread20hardware_concurrencyEv(void) { return 2; } }
#else
extern "C" { int vf_mutex_visible = 0, vf_cond_spurious = 0; unsigned __vfs__ZNSt6thread20hardware_concurrencyEv(void) { return 2; } }
#endif
struct Sub {
    unsigned long long h;
    bool live, done;
    int calls;
    int action; // REENT: 0 nothing, 1 unsubscribe subs[target], 2 subscribe
    int target;
};
static Sub subs[OPS + 4];
static int nsubs;
static int last_called;
static unsigned arg1;
static long arg2;
static co_event<unsigned, long> *ev;
static void add(int action, int target);
static void called(int i, unsigned a, long b)
{
    vf_assert(subs[i].live, "a callback that was unsubscribed was called");
    vf_assert(a == arg1 && b == arg2, "a callback got other arguments than the published ones");
    vf_assert(i > last_called, "callbacks called twice or out of subscription order");
    last_called = i;
    subs[i].calls++;
#ifdef REENT
    if (subs[i].action == 1 && subs[i].target < nsubs) {
        ev->unsub(subs[subs[i].target].h);
        subs[subs[i].target].live = false;
    } else if (subs[i].action == 2 && nsubs < OPS + 3) {
        add(0, 0);
        subs[nsubs - 1].calls = -1; // may or may not take part in the running publication
    }
#endif
}
static void add(int action, int target)
{
    int i = nsubs;
    subs[i].action = action;
    subs[i].target = target;
    subs[i].h = ev->sub([i](unsigned a, long b) { called(i, a, b); });
    for (int k = 0; k < i; k++) vf_assert(subs[k].h != subs[i].h, "two subscriptions got the same handle");
    subs[i].live = true;
    nsubs++;
}
extern "C" void vf_main()
{
    ev = new co_event<unsigned, long>;
    for (int o = 0; o < OPS; o++) {
        unsigned op = (unsigned)vf_concrete(vf_choice("op", 3));
        if (op == 0) {
            int action = 0, target = 0;
#ifdef REENT
            action = (int)vf_concrete(vf_choice("action", 3));
            if (action == 1) target = (int)vf_concrete(vf_choice("target", OPS));
#endif
            add(action, target);
        } else if (op == 1) {
            unsigned long long h = vf_nondet("handle", 64);
            ev->unsub(h);
            for (int i = 0; i < nsubs; i++)
                if (subs[i].h == h) subs[i].live = false;
        } else {
            arg1 = (unsigned)vf_nondet("arg1", 32);
            arg2 = (long)vf_nondet("arg2", 64);
            last_called = -1;
            int n = nsubs;
            bool was[OPS + 4];
            for (int i = 0; i < n; i++) { subs[i].calls = 0; was[i] = subs[i].live; }
            ev->pub(arg1, arg2);
            for (int i = 0; i < n; i++) {
                if (!was[i]) vf_assert(subs[i].calls == 0, "a callback that was unsubscribed was called");
                else if (subs[i].live) vf_assert(subs[i].calls == 1, "a subscribed callback was not called exactly once");
                else vf_assert(subs[i].calls <= 1, "a callback was called twice");
            }
            if (n > 1) vf_reach("published");
        }
    }
    delete ev;
    vf_reach("end");
}
