// C15: a pipeline yields what its stages define
// SRC: 0 collection, 1 range, 2 function, 3 iterators, 4 initializer list (any of them with SRC=9)
// K1, K2: stages, 9 for any; LEN: items; CAP: capacity of the source's channel
#include "l2f.h"
#include "cocpp/pipeline/co_pipeline.h"
using namespace cocpp;
typedef unsigned long W;
static co_env *env;
extern "C" { extern int vf_clock_stall; }
extern "C" co_env *__vfo__ZN5cocpp10co_manager14get_best_env__Ev(co_manager *) { return env; }
static W item[LEN + 1];
static int len, yields;
static bool any_order, done;
struct List { W v[LEN + 2]; int n = 0; };
static List want;
struct Iter
{
    W *p;
    W operator*() const { return *p; }
    Iter &operator++() { ++p; return *this; }
    bool operator!=(const Iter &o) const { return p != o.p; }
};
static void rest()
{
    if (yields < YIELDS && vf_concrete(vf_choice("yield", 2))) { yields++; env->schedule_switch(); }
}
static W f(W x) { return 3 * x + 1; }
enum { MAP, FILTER, TAKE, SKIP, REDUCE, GROUP, FORK, STAGES };
static List apply(int kind, int n, const List &in)
{
    List out;
    W sum = 7;
    for (int i = 0; i < in.n; i++)
    {
        W x = in.v[i];
        if (kind == MAP || kind == FORK) out.v[out.n++] = f(x);
        if (kind == FILTER && (x & 1)) out.v[out.n++] = x;
        if (kind == TAKE && i < n) out.v[out.n++] = x;
        if (kind == SKIP && i >= n) out.v[out.n++] = x;
        if (kind == GROUP && i % n == n - 1)
        {
            W g = 0;
            for (int j = i - n + 1; j <= i; j++) g = g * 5 + in.v[j];
            out.v[out.n++] = g;
        }
        sum = sum * 3 + x;
    }
    if (kind == REDUCE) out.v[out.n++] = sum;
    return out;
}
template <class Then> static void stage(int kind, int n, co_pipeline<W> &p, Then then)
{
    auto next = [&](auto &&q) { then(q); };
    if (kind == MAP) return next(p | [](W x) { rest(); return f(x); });
    if (kind == FILTER) return next(p | pipeline::filter([](W x) { rest(); return (x & 1) != 0; }));
    if (kind == TAKE) return next(p | pipeline::take(n));
    if (kind == SKIP) return next(p | pipeline::skip(n));
    if (kind == REDUCE) return next(p | pipeline::reduce([](W a, W x) { rest(); return a * 3 + x; }, W(7)));
    if (kind == GROUP)
        return next(p | pipeline::group(n, [n](std::vector<W> v) {
            rest();
            vf_assert(v.size() == size_t(n), "a group of the wrong size");
            W g = 0;
            for (W x : v) g = g * 5 + x;
            return g;
        }));
    return next(p | pipeline::fork(n, [](W x) { rest(); return f(x); }));
}
static void collect(co_pipeline<W> &p)
{
    W got[LEN + 2];
    int n = 0;
    if (CHAN)
    {
        auto ch = p | pipeline::chan();
        for (auto x : ch) { vf_assert(n < want.n, "more values than the stages define"); got[n++] = x; }
    }
    else
    {
        auto v = p | pipeline::to<std::vector<W>>();
        vf_assert(v.size() <= size_t(want.n), "more values than the stages define");
        for (W x : v) got[n++] = x;
    }
    vf_assert(n == want.n, "fewer values than the stages define");
    for (int i = 0; i < n; i++)
        if (any_order)
        {
            int a = 0, b = 0;
            for (int j = 0; j < n; j++) a += got[j] == want.v[i], b += want.v[j] == want.v[i];
            vf_assert(a == b, "a value is not the one the stages define");
        }
        else vf_assert(got[i] == want.v[i], "a value is not the one the stages define");
    done = true;
}
__attribute__((noinline)) static co_pipeline<W> from_list(W a, W b) { return co_pipeline<W>({a, b}, CAP); }
static void body()
{
    int src = SRC == 9 ? vf_concrete(vf_choice("source", 5)) : SRC;
    len = vf_concrete(vf_choice("length", LEN + 1));
    for (int i = 0; i < LEN; i++) item[i] = src == 1 ? 4 + 3 * i : vf_nondet("item", 64);
    List l;
    for (int i = 0; i < len; i++) l.v[l.n++] = item[i];
    int k1 = K1 == 9 ? vf_concrete(vf_choice("first stage", STAGES)) : K1, k2 = K2 == 9 ? vf_concrete(vf_choice("second stage", STAGES)) : K2;
    int n1 = k1 < TAKE || k1 == REDUCE ? 0 : vf_concrete(vf_choice("parameter", LEN + 2));
    int n2 = k2 < TAKE || k2 == REDUCE ? 0 : vf_concrete(vf_choice("parameter", LEN + 2));
    vf_assume(k1 < GROUP || (n1 > 0 && n1 <= (k1 == FORK ? 2 : LEN)));
    vf_assume(k2 < GROUP || (n2 > 0 && n2 <= (k2 == FORK ? 2 : LEN)));
    // behind a fork the order is not defined: only a stage for which it does not matter
    vf_assume(k1 != FORK || k2 == MAP || k2 == FILTER || k2 == FORK);
    any_order = k1 == FORK || k2 == FORK;
    want = apply(k2, n2, apply(k1, n1, l));
    auto go = [&](auto &&p) {
        stage(k1, n1, p, [&](auto &q) { stage(k2, n2, q, collect); });
    };
    if (src == 0) go(co_pipeline<W>(std::vector<W>(item, item + len), CAP));
    if (src == 1) go(co_pipeline<W>(W(4), W(4 + 3 * len), W(3), CAP));
    if (src == 2) go(co_pipeline<W>([i = 0]() mutable -> std::optional<W> { if (i == len) return std::nullopt; return item[i++]; }, CAP));
    if (src == 3) go(co_pipeline<W>(Iter{item}, Iter{item + len}, CAP));
    if (src == 4)
    {
        vf_assume(len == 2);
        go(from_list(item[0], item[1]));
    }
    env->stop_schedule();
}
extern "C" void vf_main()
{
    vf_clock_stall = 0;
    env = l2f_env(4096);
    l2f_ctx(env, [](co_any &) { body(); }, false);
    env->schedule_in_this_thread();
    vf_assert(done, "collecting the result did not end");
    vf_reach("end");
}
