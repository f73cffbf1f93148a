// C10: arriving too often and foreign or stale tokens are refused; sequential,
// with symbolic counts.
#include "l1.h"
#include "cocpp/sync/co_barrier.h"
using namespace cocpp;
extern "C" void vf_main()
{
    l1_setup(0);
    l1_enter();
    long max = 1 + (long)vf_nondet("max", 16), n = 1 + (long)vf_nondet("n", 16);
    co_barrier b(max), other(max);
    bool thrown = false;
    co_arrival_token t {};
    try { t = b.arrive(n); } catch (std::logic_error &) { thrown = true; }
    vf_assert(thrown == (n > max), "arrive throws exactly when more arrive than expected");
    if (thrown) { // nothing changed: the full count still fits
        t = b.arrive(max);
        n = max;
    }
    co_arrival_token foreign = t;
    thrown = false;
    try { other.wait(std::move(foreign)); } catch (std::logic_error &) { thrown = true; }
    vf_assert(thrown, "token of another barrier accepted");
    if (n < max) {
        thrown = false;
        try { b.arrive(max - n + 1); } catch (std::logic_error &) { thrown = true; }
        vf_assert(thrown, "more arrivals than expected in one phase");
        b.arrive(max - n);
        vf_reach("two arrivals");
    }
    co_arrival_token old = t;
    b.wait(std::move(t)); // everybody has arrived: returns
    // reusable with the same count; the first token belongs to an old phase then
    auto t2 = b.arrive(max);
    b.wait(std::move(t2));
    thrown = false;
    try { b.wait(std::move(old)); } catch (std::logic_error &) { thrown = true; }
    vf_assert(thrown, "token of an old phase accepted");
    thrown = false;
    try { b.arrive(max + 1); } catch (std::logic_error &) { thrown = true; }
    vf_assert(thrown, "count of a later phase differs");
    vf_reach("end");
}
