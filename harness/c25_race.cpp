// C25: one coroutine publishes, another subscribes and unsubscribes; nothing
// is called after its unsubscription returned.
#include "l1t.h"
#include "cocpp/event/co_event.h"
using namespace cocpp;
static co_event<unsigned> *ev;
static unsigned long long h0, h2;
static bool gone, live1;
static int calls0, calls1, calls2;
static unsigned val;
static void *publisher(void *)
{
    l1_enter();
    bool must2 = false;
    for (int i = 0; i < 2; i++) {
        int c1 = calls1, c2 = calls2;
        must2 = live1;
        ev->pub(val);
        vf_assert(calls1 == c1 + 1, "a subscribed callback was not called exactly once");
        vf_assert(calls2 <= c2 + 1 && (!must2 || calls2 == c2 + 1), "a subscribed callback was not called exactly once");
    }
    return nullptr;
}
static void *other(void *)
{
    l1_enter();
    ev->unsub(h0);
    gone = true;
    h2 = ev->sub([](unsigned v) { vf_assert(v == val, "wrong argument"); calls2++; });
    live1 = true;
    return nullptr;
}
extern "C" void vf_main()
{
    l1_setup(3);
    ev = new co_event<unsigned>;
    l1t_watch_mutex(ev->mu_cb_list__);
    val = (unsigned)vf_nondet("val", 32);
    h0 = ev->sub([](unsigned v) { vf_assert(!gone, "a callback was called after it was unsubscribed"); vf_assert(v == val, "wrong argument"); calls0++; vf_yield(); });
    ev->sub([](unsigned v) { vf_assert(v == val, "wrong argument"); calls1++; vf_yield(); });
    l1_ghost(gone, live1, calls0, calls1, calls2);
    vf_spawn(publisher, 0);
    vf_spawn(other, 0);
    vf_join_all();
    vf_assert(h2 != h0, "two subscriptions got the same handle");
    vf_reach("end");
}
