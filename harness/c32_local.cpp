// C32: any sequence of OPS accesses to coroutine-local variables from NC
// coroutines under several names and types, against a reference table.
#include "l1.h"
#include "cocpp/co/co_co.h"
using namespace cocpp;
#ifndef OPS
#define OPS 4
#endif
#define NC 2
struct Big { unsigned long a = 7, b = 9; };
static unsigned ref_i[NC][2];
static Big ref_b[NC];
extern "C" void vf_main()
{
    l1_setup(NC);
    for (int o = 0; o < OPS; o++) {
        unsigned c = (unsigned)vf_concrete(vf_choice("coroutine", NC)), k = (unsigned)vf_concrete(vf_choice("name", 3));
        unsigned w = (unsigned)vf_concrete(vf_choice("write", 2));
        unsigned long v = vf_nondet("value", 64);
        current_env__ = l1_env[1 + c]; // that coroutine is the running one
        if (k < 2) {
            unsigned &x = k == 0 ? CoLocal(alpha, unsigned) : CoLocal(alphabet, unsigned);
            vf_assert(x == ref_i[c][k], "a coroutine-local variable does not have the value last written (or its default)");
            if (w) x = ref_i[c][k] = (unsigned)v;
        } else {
            Big &x = CoLocal(beta, Big);
            vf_assert(x.a == ref_b[c].a && x.b == ref_b[c].b, "a coroutine-local variable does not have the value last written (or its default)");
            if (w) { x.b = ref_b[c].b = v; }
        }
    }
    vf_reach("end");
}
