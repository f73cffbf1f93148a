// Environment model: allocation, pthread, clocks and the out-of-line parts of
// the C++ runtime library that the code under analysis calls.
// A function named __vfs_X replaces the library function X.
#include "vf.h"
#include <cerrno>
#include <pthread.h>
#include <time.h>

#define S(name) __vfs_##name
extern "C" {
// ------------------------------------------------------------ allocation
void *S(_Znwm)(size_t n) { return vf_malloc(n); }
void *S(_Znam)(size_t n) { return vf_malloc(n); }
void *S(_ZnwmSt11align_val_t)(size_t n, size_t) { return vf_malloc(n); }
void *S(_ZnwmRKSt9nothrow_t)(size_t n, const void *) { return vf_malloc(n); }
void S(_ZdlPv)(void *p) { vf_free(p); }
void S(_ZdaPv)(void *p) { vf_free(p); }
void S(_ZdlPvm)(void *p, size_t) { vf_free(p); }
void S(_ZdaPvm)(void *p, size_t) { vf_free(p); }
void S(_ZdlPvmSt11align_val_t)(void *p, size_t, size_t) { vf_free(p); }
void S(_ZdlPvRKSt9nothrow_t)(void *p, const void *) { vf_free(p); }
void *S(malloc)(size_t n) { return vf_malloc(n); }
void *S(calloc)(size_t a, size_t b) { return vf_calloc(a * b); }
void S(free)(void *p) { vf_free(p); }
int S(posix_memalign)(void **p, size_t, size_t n) { *p = vf_malloc(n); return 0; }
void *S(aligned_alloc)(size_t, size_t n) { return vf_malloc(n); }

// ------------------------------------------------------------ pthread mutexes
// word 0: lock depth, word 1: owner + 1, int at 16: kind (1 = recursive)
struct vf_mutex { long depth; long owner; int kind; };
extern int vf_mutex_visible; // set by harnesses that want lock operations interleaved
struct vf_mutex_try { vf_mutex *m; long me; };
static bool mutex_free(void *p) { return ((vf_mutex *)p)->depth == 0; }
int S(pthread_mutex_init)(pthread_mutex_t *mu, const pthread_mutexattr_t *a)
{
    auto *m = (vf_mutex *)mu;
    m->depth = 0;
    m->owner = 0;
    m->kind = a ? *(const int *)a : 0;
    return 0;
}
int S(pthread_mutexattr_init)(pthread_mutexattr_t *a) { *(int *)a = 0; return 0; }
int S(pthread_mutexattr_settype)(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
int S(pthread_mutexattr_destroy)(pthread_mutexattr_t *) { return 0; }
int S(pthread_mutex_destroy)(pthread_mutex_t *) { return 0; }
int S(pthread_mutex_lock)(pthread_mutex_t *mu)
{
    auto *m = (vf_mutex *)mu;
    long me = vf_tid() + 1;
    if (m->depth && m->owner == me) {
        if (m->kind == 1) { m->depth++; return 0; }
        vf_fail("non-recursive mutex locked twice by the same thread");
    }
    vf_mem((char *)m + sizeof(pthread_mutex_t) - 1, 1); // a scheduling point if the harness watches the last byte of this mutex
    if (vf_mutex_visible || m->depth) vf_await(mutex_free, m);
    m->depth = 1;
    m->owner = me;
    return 0;
}
int S(pthread_mutex_trylock)(pthread_mutex_t *mu)
{
    auto *m = (vf_mutex *)mu;
    long me = vf_tid() + 1;
    if (m->depth && m->owner == me && m->kind == 1) { m->depth++; return 0; }
    if (vf_mutex_visible) vf_visible(m, 1);
    if (m->depth) return EBUSY;
    m->depth = 1;
    m->owner = me;
    return 0;
}
int S(pthread_mutex_unlock)(pthread_mutex_t *mu)
{
    auto *m = (vf_mutex *)mu;
    long me = vf_tid() + 1;
    if (!m->depth || m->owner != me) vf_fail("mutex unlocked by a thread that does not hold it");
    if (--m->depth == 0) m->owner = 0;
    return 0;
}

// ------------------------------------------------------------ condition variables
// word 0: waiting threads (bit mask), word 1: signalled threads
struct vf_cond { unsigned long waiting, signalled; };
struct vf_cond_wait { vf_cond *c; unsigned long bit; };
extern int vf_cond_spurious;
static bool cond_woken(void *p) { auto *w = (vf_cond_wait *)p; return (w->c->signalled & w->bit) != 0; }
static bool always(void *) { return true; }
int S(pthread_cond_init)(pthread_cond_t *c, const pthread_condattr_t *) { ((vf_cond *)c)->waiting = ((vf_cond *)c)->signalled = 0; return 0; }
int S(pthread_cond_destroy)(pthread_cond_t *) { return 0; }
int S(pthread_cond_signal)(pthread_cond_t *cc)
{
    auto *c = (vf_cond *)cc;
    unsigned long w = c->waiting & ~c->signalled;
    if (!w) return 0;
    unsigned long pick = w & -w;
    if (w & (w - 1)) { // more than one waiter: any of them
        pick = 1ul << vf_nondet("cond_pick", 4);
        vf_assume((pick & w) != 0);
    }
    c->signalled |= pick;
    return 0;
}
int S(pthread_cond_broadcast)(pthread_cond_t *cc) { auto *c = (vf_cond *)cc; c->signalled |= c->waiting; return 0; }
int S(pthread_cond_wait)(pthread_cond_t *cc, pthread_mutex_t *mu)
{
    vf_cond_wait w {(vf_cond *)cc, 1ul << vf_tid()};
    w.c->waiting |= w.bit;
    S(pthread_mutex_unlock)(mu);
    if (vf_cond_spurious > 0 && vf_nondet("spurious", 1)) { vf_cond_spurious--; vf_await(always, 0); } // at most so often
    else vf_await(cond_woken, &w);
    w.c->waiting &= ~w.bit;
    w.c->signalled &= ~w.bit;
    S(pthread_mutex_lock)(mu);
    return 0;
}
// a timed wait that continues unsignalled has timed out; the clock is moved to the deadline
void vf_clock_at_least(long ns);
long vf_clock_horizon = 0x7fffffffffffffffl; // the last moment that is considered
static int cond_timed(vf_cond *c, pthread_mutex_t *mu, const timespec *ts)
{
    vf_cond_wait w {c, 1ul << vf_tid()};
    w.c->waiting |= w.bit;
    S(pthread_mutex_unlock)(mu);
    if (ts->tv_sec * 1000000000l + ts->tv_nsec > vf_clock_horizon) vf_await(cond_woken, &w); // time does not get there
    else vf_await(always, 0); // going on without a signal means that the deadline has passed
    int to = !cond_woken(&w);
    if (to) vf_clock_at_least(ts->tv_sec * 1000000000l + ts->tv_nsec);
    w.c->waiting &= ~w.bit;
    w.c->signalled &= ~w.bit;
    S(pthread_mutex_lock)(mu);
    return to ? ETIMEDOUT : 0;
}
int S(pthread_cond_timedwait)(pthread_cond_t *c, pthread_mutex_t *mu, const timespec *ts) { return cond_timed((vf_cond *)c, mu, ts); }
int S(pthread_cond_clockwait)(pthread_cond_t *c, pthread_mutex_t *mu, clockid_t, const timespec *ts) { return cond_timed((vf_cond *)c, mu, ts); }
// std::condition_variable
void S(_ZNSt18condition_variableC1Ev)(void *c) { S(pthread_cond_init)((pthread_cond_t *)c, 0); }
void S(_ZNSt18condition_variableD1Ev)(void *) {}
void S(_ZNSt18condition_variable10notify_oneEv)(void *c) { S(pthread_cond_signal)((pthread_cond_t *)c); }
void S(_ZNSt18condition_variable10notify_allEv)(void *c) { S(pthread_cond_broadcast)((pthread_cond_t *)c); }
void S(_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE)(void *c, void **lk) { S(pthread_cond_wait)((pthread_cond_t *)c, (pthread_mutex_t *)*lk); }

// ------------------------------------------------------------ pthread misc
int S(pthread_once)(int *o, void (*f)(void)) { if (*o == 0) { *o = 1; f(); *o = 2; } return 0; }
unsigned long S(pthread_self)(void) { return vf_tid() + 1; }
int S(gettid)(void) { return vf_tid() + 1; }
int S(getpid)(void) { return 1; }
int S(sched_yield)(void) { vf_yield(); return 0; }
unsigned S(_ZNSt6thread20hardware_concurrencyEv)(void);

// ------------------------------------------------------------ clocks
// mode 0 (spin): every thread has its own clock; each reading either stands
// still or jumps past any deadline; after vf_clock_stall readings that stand
// still it must jump.  mode 1 (global): one nondecreasing clock in nanoseconds;
// mode 4: the same, but bounded by 2^vf_clock_bits unless a timed wait goes further.
int vf_clock_mode = 0;
int vf_clock_stall = 1;
long vf_clock_now = 1000000000l;          // mode 1
int vf_clock_bits = 36;                   // mode 1: size of a step
static long spin_clock[16];
static long spin_still[16];
long (*vf_clock_fn)(void) = nullptr;     // mode 3: the harness answers
long vf_clock_read(void)
{
    if (vf_clock_mode == 3) return vf_clock_fn();
    if (vf_clock_mode == 0) {
        int t = vf_tid();
        if (spin_clock[t] == 0) { spin_clock[t] = 1000000000l; return spin_clock[t]; }
        long adv = vf_clock_stall == 0 ? 1 : (long)vf_nondet("clk", 1) | (spin_still[t] >= vf_clock_stall);
        spin_clock[t] += adv << 42;
        spin_still[t] = adv ? 0 : spin_still[t] + 1;
        return spin_clock[t];
    }
    if (vf_clock_mode == 1) vf_clock_now += (long)vf_nondet("clk", vf_clock_bits);
    if (vf_clock_mode == 4) { // any later time below 2^vf_clock_bits; after that only timed waits move it
        long n = (long)vf_nondet("clk", vf_clock_bits + 1);
        vf_assume((n >= vf_clock_now) & ((n < 1l << vf_clock_bits) | ((n == vf_clock_now) & (vf_clock_horizon != 0x7fffffffffffffffl))));
        vf_clock_now = n;
    }
    return vf_clock_now; // mode 2: moved by the harness only
}
void vf_clock_at_least(long ns)
{
    if (vf_clock_mode == 0) { int t = vf_tid(); if (spin_clock[t] < ns) spin_clock[t] = ns; }
    else if (vf_clock_now < ns) vf_clock_now = ns;
}
void vf_clock_private(void) { vf_private(spin_clock, sizeof spin_clock); vf_private(spin_still, sizeof spin_still); }
long S(_ZNSt6chrono3_V212steady_clock3nowEv)(void) { return vf_clock_read(); }
long S(_ZNSt6chrono3_V212system_clock3nowEv)(void) { return vf_clock_read(); }
int S(clock_gettime)(int, timespec *ts) { long n = vf_clock_read(); ts->tv_sec = n / 1000000000l; ts->tv_nsec = n % 1000000000l; return 0; }
int S(nanosleep)(const timespec *ts, timespec *) { vf_clock_at_least(vf_clock_read() + ts->tv_sec * 1000000000l + ts->tv_nsec); vf_yield(); return 0; }
int S(clock_nanosleep)(int, int, const timespec *ts, timespec *) { (void)ts; vf_yield(); return 0; }
int S(usleep)(unsigned) { vf_yield(); return 0; }
static int the_errno[16];
int *S(__errno_location)(void) { return &the_errno[vf_tid()]; }

// ------------------------------------------------------------ std::list
struct vf_lnode { vf_lnode *next, *prev; };
void S(_ZNSt8__detail15_List_node_base7_M_hookEPS0_)(vf_lnode *t, vf_lnode *pos)
{
    t->next = pos;
    t->prev = pos->prev;
    pos->prev->next = t;
    pos->prev = t;
}
void S(_ZNSt8__detail15_List_node_base9_M_unhookEv)(vf_lnode *t)
{
    vf_lnode *n = t->next, *p = t->prev;
    p->next = n;
    n->prev = p;
}
void S(_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_)(vf_lnode *t, vf_lnode *first, vf_lnode *last)
{
    if (t == last) return;
    last->prev->next = t;
    first->prev->next = last;
    t->prev->next = first;
    vf_lnode *tmp = t->prev;
    t->prev = last->prev;
    last->prev = first->prev;
    first->prev = tmp;
}
void S(_ZNSt8__detail15_List_node_base4swapERS0_S1_)(vf_lnode *x, vf_lnode *y)
{
    if (x->next != x) {
        if (y->next != y) {
            vf_lnode *a = x->next; x->next = y->next; y->next = a;
            a = x->prev; x->prev = y->prev; y->prev = a;
            x->next->prev = x->prev->next = x;
            y->next->prev = y->prev->next = y;
        } else {
            y->next = x->next; y->prev = x->prev;
            y->next->prev = y->prev->next = y;
            x->next = x->prev = x;
        }
    } else if (y->next != y) {
        x->next = y->next; x->prev = y->prev;
        x->next->prev = x->prev->next = x;
        y->next = y->prev = y;
    }
}
void S(_ZNSt8__detail15_List_node_base10_M_reverseEv)(vf_lnode *t)
{
    vf_lnode *c = t;
    do { vf_lnode *n = c->next; c->next = c->prev; c->prev = n; c = c->prev; } while (c != t);
}

// ------------------------------------------------------------ red-black trees
// Ordered-tree operations of std::set / std::map.  The tree is kept as a plain
// (unbalanced) binary search tree with the same header layout: the order of
// the elements, which is all a user can observe, is the same.
struct vf_rb { int color; vf_rb *parent, *left, *right; };
static vf_rb *rb_min(vf_rb *x) { while (x->left) x = x->left; return x; }
static vf_rb *rb_max(vf_rb *x) { while (x->right) x = x->right; return x; }
void S(_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_)(bool left, vf_rb *x, vf_rb *p, vf_rb *h)
{
    x->parent = p;
    x->left = x->right = 0;
    x->color = 1;
    if (left) {
        p->left = x; // also makes leftmost = x when p is the header
        if (p == h) { h->parent = x; h->right = x; }
        else if (p == h->left) h->left = x;
    } else {
        p->right = x;
        if (p == h->right) h->right = x;
    }
}
static vf_rb *rb_inc(vf_rb *x)
{
    if (x->right) return rb_min(x->right);
    vf_rb *y = x->parent;
    while (x == y->right) { x = y; y = y->parent; }
    return x->right != y ? y : x;
}
static vf_rb *rb_dec(vf_rb *x)
{
    if (x->color == 0 && x->parent->parent == x) return x->right; // header is the only red (0) node
    if (x->left) return rb_max(x->left);
    vf_rb *y = x->parent;
    while (x == y->left) { x = y; y = y->parent; }
    return y;
}
vf_rb *S(_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base)(vf_rb *x) { return rb_inc(x); }
vf_rb *S(_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base)(vf_rb *x) { return rb_inc(x); }
vf_rb *S(_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base)(vf_rb *x) { return rb_dec(x); }
vf_rb *S(_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base)(vf_rb *x) { return rb_dec(x); }
static void rb_replace(vf_rb *z, vf_rb *y, vf_rb *h)
{
    if (h->parent == z) h->parent = y;
    else if (z->parent->left == z) z->parent->left = y;
    else z->parent->right = y;
    if (y) y->parent = z->parent;
}
vf_rb *S(_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_)(vf_rb *z, vf_rb *h)
{
    if (h->left == z) h->left = z->right ? rb_min(z->right) : z->parent;
    if (h->right == z) h->right = z->left ? rb_max(z->left) : z->parent;
    if (!z->left) rb_replace(z, z->right, h);
    else if (!z->right) rb_replace(z, z->left, h);
    else {
        vf_rb *y = rb_min(z->right);
        if (y->parent != z) {
            rb_replace(y, y->right, h);
            y->right = z->right;
            y->right->parent = y;
        }
        rb_replace(z, y, h);
        y->left = z->left;
        y->left->parent = y;
    }
    return z;
}

}
