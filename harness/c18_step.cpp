// C18, one step from any state: NC coroutines with any priorities, any of them
// waiting or finished, any of them current, and any value of the cached lowest
// priority that the code allows; one operation, then a scheduling decision.
// Because every state satisfying the invariant is a start state and the
// invariant is shown again afterwards, this covers sequences of any length.
#include "l2.h"
#include <vector>
using namespace cocpp;
#ifndef NC
#define NC 3
#endif
static const int levels[] = {0, 1, 99};
static std::vector<co_ctx *> model[CO_MAX_PRIORITY]; // rotation order
static co_env *env;
static bool ready(co_ctx *c) { return (c->state() != co_state::finished) & !c->test_flag(CO_CTX_FLAG_WAITING); }
static void drop(co_ctx *c) { for (int l : levels) std::erase(model[l], c); }
static void invariant()
{
    for (int l : levels) {
        auto &q = env->all_normal_ctx__[l];
        vf_assert(q.size() == model[l].size(), "a coroutine was lost or duplicated");
        size_t k = 0;
        for (co_ctx *c : q) vf_assert(model[l][k++] == c, "the rotation order is wrong");
        for (co_ctx *c : model[l]) vf_assert((int)!ready(c) | (int)(env->min_priority__ <= (size_t)l), "a ready coroutine is invisible to the scheduler");
    }
}
extern "C" void vf_main()
{
    env = l2_env();
    co_ctx *c[NC + 1] = {};
    int op = (int)vf_concrete(vf_choice("op", 7)), who = 0;
    int last = 0;
    for (int i = 0; i < NC; i++) { // the coroutines differ in nothing else, so ascending priorities suffice
        last = (int)vf_concrete(vf_choice("priority", 3 - last)) + last;
        int p = levels[last];
        c[i] = l2_ctx(env, p);
        model[p].push_back(c[i]);
    }
    co_ctx *idle = env->current_ctx();
    bool wait[NC], fin[NC];
    for (int i = 0; i < NC; i++) {
        wait[i] = vf_nondet("waiting", 1);
        fin[i] = vf_nondet("finished", 1);
        *(unsigned long *)&c[i]->flag_manager__.flags__ |= wait[i] ? 1ul << CO_CTX_FLAG_WAITING : 0;
        c[i]->state_manager__.state__ = fin[i] ? co_state::finished : co_state::suspended;
    }
    int cu = (int)vf_concrete(vf_choice("current", NC + 1)); // NC: the idle context
    co_ctx *curr = cu == NC ? idle : c[cu];
    if (cu < NC) {
        env->curr_ctx__ = curr;
        if (!fin[cu]) curr->state_manager__.state__ = co_state::running;
        idle->state_manager__.state__ = co_state::suspended;
    }
    static const int mins[] = {0, 1, 50, 99};
    env->min_priority__ = mins[vf_concrete(vf_choice("min", 4))];
    for (int l : levels) for (co_ctx *x : model[l]) vf_assume((int)!ready(x) | (int)(env->min_priority__ <= (size_t)l));

    switch (op) {
    case 0: break; // just the decision
    case 1: // somebody waits for something
        who = (int)vf_concrete(vf_choice("who", NC));
        c[who]->enter_wait_resource_state(&who);
        vf_assert(!ready(c[who]), "a waiting coroutine is ready");
        break;
    case 2: { // somebody is woken up
        who = (int)vf_concrete(vf_choice("who", NC));
        c[who]->wait_data__.resource.insert(&who);
        vf_assume(wait[who]);
        c[who]->leave_wait_resource_state(&who);
        vf_assert(!c[who]->test_flag(CO_CTX_FLAG_WAITING), "a woken coroutine is still waiting");
        break;
    }
    case 3: { // a priority changes
        who = (int)vf_concrete(vf_choice("who", NC));
        int to = (int)vf_concrete(vf_choice("to", 5));
        static const int values[] = {0, 1, 99, -7, 1000};
        int clamped = values[to] < 0 ? 0 : values[to] > 99 ? 99 : values[to];
        bool same = (int)c[who]->priority() == clamped;
        c[who]->set_priority(values[to]);
        vf_assert((int)c[who]->priority() == clamped, "the priority is not the given one, clamped");
        if (!same) { drop(c[who]); model[clamped].push_back(c[who]); }
        break;
    }
    case 4: { // a coroutine is added
        int p = levels[vf_concrete(vf_choice("priority", 3))];
        c[NC] = l2_ctx(env, p);
        model[p].push_back(c[NC]);
        break;
    }
    case 5: // the current coroutine finishes
        vf_assume(cu < NC);
        c[cu]->set_state(co_state::finished);
        break;
    case 6: // a finished one is removed
        who = (int)vf_concrete(vf_choice("who", NC));
        vf_assume(who != cu && fin[who]);
        drop(c[who]);
        env->remove_ctx(c[who]);
        break;
    }
    invariant();
    // the decision
    co_ctx *want = nullptr;
    for (int l : levels) for (co_ctx *x : model[l]) if (!want && ready(x)) want = x;
    vf_assume(want || !curr->test_flag(CO_CTX_FLAG_WAITING)); // otherwise the thread sleeps (C19)
    if (want) { int l = (int)want->priority(); drop(want); model[l].push_back(want); }
    bool finished = curr->state() == co_state::finished;
    co_ctx *from = nullptr, *to = nullptr, *next = want ? want : idle;
    env->lock_schedule();
    bool sw = env->prepare_to_switch(from, to);
    env->unlock_schedule();
    vf_assert(sw == (next != curr), "switching to the running coroutine, or not switching although another one is due");
    vf_assert(!sw || (from == curr && to == next), "another coroutine than the one due was chosen");
    vf_assert(env->current_ctx() == next, "another coroutine than the one due is current");
    vf_assert(next->state() == co_state::running, "the chosen coroutine is not marked as running");
    if (sw) vf_assert(curr->state() == (finished ? co_state::finished : co_state::suspended), "the previous coroutine is not marked as suspended");
    invariant();
    vf_reach("end");
}
