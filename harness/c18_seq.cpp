// C18, sequences: ROUNDS decisions among NC coroutines with arbitrary waits,
// wake-ups and priority changes in between, through the public interface.
#include "l2.h"
#include <vector>
using namespace cocpp;
#ifndef NC
#define NC 3
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
extern "C" void vf_main()
{
    co_env *env = l2_env();
    co_ctx *c[NC], *idle = env->current_ctx();
    std::vector<co_ctx *> order; // rotation order
    bool wait[NC] = {};
    for (int i = 0; i < NC; i++) {
        c[i] = l2_ctx(env, (int)vf_concrete(vf_choice("priority", 2)) * 50);
        order.push_back(c[i]);
    }
    for (int r = 0; r < ROUNDS; r++) {
        int k = (int)vf_concrete(vf_choice("what", NC * 2 + 1));
        if (k < NC) {
            wait[k] = !wait[k];
            if (wait[k]) c[k]->enter_wait_resource_state(&wait[k]);
            else c[k]->leave_wait_resource_state(&wait[k]);
        } else if (k < 2 * NC) {
            co_ctx *x = c[k - NC];
            x->set_priority(x->priority() == 50 ? 0 : 50);
            std::erase(order, x);
            order.push_back(x);
        }
        co_ctx *want = nullptr, *curr = env->current_ctx();
        for (int p = 0; p <= 50; p += 50)
            for (co_ctx *x : order)
                if (!want && (int)x->priority() == p && x->can_schedule()) want = x;
        vf_assume(want || curr->can_schedule());
        if (want) { std::erase(order, want); order.push_back(want); }
        co_ctx *from, *to, *next = want ? want : idle;
        env->lock_schedule();
        bool sw = env->prepare_to_switch(from, to);
        env->unlock_schedule();
        vf_assert(sw == (next != curr), "switching to the running coroutine, or not switching although another one is due");
        vf_assert(!sw || (from == curr && to == next), "another coroutine than the one due was chosen");
    }
    vf_reach("end");
}
