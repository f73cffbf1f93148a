// Contracts that stand in for lower-layer primitives in larger configurations.
// Each primitive is itself checked without its contract (see DESIGN.md).
#pragma once
#include "vf.h"
#include "cocpp/sync/co_spinlock.h"
#include "cocpp/sync/co_mutex.h"
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_env.h"
#include <stdexcept>
extern "C" {
#ifdef SPIN_CONTRACT // co_spinlock: acquired atomically when free
static bool ct_spin_free(void *p) { return *(volatile unsigned char *)p == 0; }
void __vfs__ZN5cocpp11co_spinlock4lockEv(void *p)
{
    vf_await(ct_spin_free, p);
    *(volatile unsigned char *)p = 1;
}
bool __vfs__ZN5cocpp11co_spinlock8try_lockEv(void *p)
{
    vf_yield();
    if (*(volatile unsigned char *)p) return false;
    *(volatile unsigned char *)p = 1;
    return true;
}
void __vfs__ZN5cocpp11co_spinlock6unlockEv(void *p) { *(volatile unsigned char *)p = 0; }
#endif
#ifdef MUTEX_CONTRACT // co_mutex: granted to any requester when free (C01, C02)
static bool ct_mutex_free(void *p) { return ((cocpp::co_mutex *)p)->owner__ == nullptr; }
void __vfs__ZN5cocpp8co_mutex4lockEv(cocpp::co_mutex *m)
{
    auto *me = cocpp::co_manager::instance()->current_env()->current_ctx();
    vf_await(ct_mutex_free, m);
    m->owner__ = me;
}
bool __vfs__ZN5cocpp8co_mutex8try_lockEv(cocpp::co_mutex *m)
{
    auto *me = cocpp::co_manager::instance()->current_env()->current_ctx();
    vf_yield();
    if (m->owner__) return false;
    m->owner__ = me;
    return true;
}
void __vfs__ZN5cocpp8co_mutex6unlockEv(cocpp::co_mutex *m)
{
    if (m->owner__ != cocpp::co_manager::instance()->current_env()->current_ctx()) vf_fail("co_mutex unlocked by a coroutine that does not hold it");
    m->owner__ = nullptr;
}
#endif
}
