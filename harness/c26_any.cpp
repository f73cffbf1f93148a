// C26: a value of a chosen type is stored, possibly copied and reassigned,
// and read as any type; values are symbolic.
#include "vf.h"
#include "cocpp/utils/co_any.h"
#include "cocpp/core/co_return_value.h"
#include <typeinfo>
#include <vector>
using namespace cocpp;
extern "C" { int vf_mutex_visible = 0, vf_cond_spurious = 0; unsigned __vfs__ZNSt6thread20hardware_concurrencyEv(void) { return 2; } }
struct A { unsigned x; bool operator==(const A &o) const { return x == o.x; } };
struct B : A { };              // derived from a storable type
struct V { virtual ~V() {} unsigned long y = 0; bool operator==(const V &o) const { return y == o.y; } };
enum E8 : unsigned char { e0 };
#define TYPES(X) X(0, int) X(1, unsigned) X(2, long) X(3, char) X(4, A) X(5, B) X(6, V) X(7, E8) X(8, unsigned char) X(9, void *)
#define NTYPES 10
template <class T> static T make(unsigned long v)
{
    T t {};
    if constexpr (std::is_same_v<T, A> || std::is_same_v<T, B>) t.x = (unsigned)v;
    else if constexpr (std::is_same_v<T, V>) t.y = v;
    else t = (T)v;
    return t;
}
static void store(co_any &a, unsigned k, unsigned long v)
{
    switch (k) {
#define X(n, T) case n: a = make<T>(v); break;
        TYPES(X)
#undef X
    }
}
template <class T, class S> static void readAs(S &a, bool same, unsigned long v)
{
    bool thrown = false;
    T got = make<T>(~v);
    try {
        if constexpr (std::is_same_v<S, co_any>) got = a.template get<T>();
        else got = (T)a;
    } catch (std::bad_cast &) { thrown = true; }
    vf_assert(thrown == !same, "a value was read as another type, or could not be read as its own");
    if (!thrown) vf_assert(got == make<T>(v), "another value than the stored one was read");
}
template <class S> static void read(S &a, unsigned k, unsigned stored, unsigned long v)
{
    switch (k) {
#define X(n, T) case n: readAs<T>(a, stored == n, v); break;
        TYPES(X)
#undef X
    }
}
extern "C" void vf_main()
{
    unsigned s = (unsigned)vf_concrete(vf_choice("stored", NTYPES + 1)); // NTYPES: nothing
    unsigned r = (unsigned)vf_concrete(vf_choice("read", NTYPES));
    unsigned long v = vf_nondet("value", 64), v2 = vf_nondet("value2", 64);
    unsigned s2 = (unsigned)vf_concrete(vf_choice("stored2", NTYPES));
    co_any *a = new co_any;
    if (s < NTYPES) store(*a, s, v);
    read(*a, r, s, v);
    co_any b(*a), c;
    c = *a;
    store(*a, s2, v2); // the copies keep the old value
    read(*a, r, s2, v2);
    read(b, r, s, v);
    delete a;
    read(c, r, s, v);
    co_return_value ret(b);
    read(ret, r, s, v);
    b = co_any();
    read(b, r, NTYPES, v);
    co_return_value ret2(ret);
    read(ret2, r, s, v);
    vf_reach("end");
}
