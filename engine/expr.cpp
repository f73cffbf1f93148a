#include "expr.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>

std::vector<VarInfo> gVars;
bool gNoSimplify = false;

namespace {
struct Arena {
    std::vector<Expr *> blocks;
    size_t used = 0;
    static constexpr size_t N = 65536;
    Expr *get()
    {
        if (blocks.empty() || used == N) { blocks.push_back((Expr *)malloc(sizeof(Expr) * N)); used = 0; }
        return &blocks.back()[used++];
    }
} arena;
uint32_t nextId = 0;

struct Table {
    std::vector<Expr *> t;
    size_t n = 0;
    Table() { t.resize(1 << 16, nullptr); }
    static uint64_t h(const Expr &e)
    {
        uint64_t x = (uint64_t)e.k * 0x9E3779B97F4A7C15ull + e.w * 1315423911ull + e.lo * 2654435761ull;
        auto mix = [&](uint64_t v) { x ^= v + 0x9E3779B97F4A7C15ull + (x << 6) + (x >> 2); x *= 0xff51afd7ed558ccdull; x ^= x >> 32; };
        mix(e.c);
        mix(e.a ? e.a->id + 1 : 0);
        mix(e.b ? e.b->id + 1 : 0);
        mix(e.d ? e.d->id + 1 : 0);
        return x;
    }
    static bool eq(const Expr &x, const Expr &y)
    {
        return x.k == y.k && x.w == y.w && x.lo == y.lo && x.c == y.c && x.a == y.a && x.b == y.b && x.d == y.d;
    }
    E intern(Expr &p)
    {
        uint64_t i = h(p) & (t.size() - 1);
        while (t[i]) {
            if (eq(*t[i], p)) return t[i];
            i = (i + 1) & (t.size() - 1);
        }
        Expr *e = arena.get();
        *e = p;
        e->id = nextId++;
        if (e->k == K::Const) { e->iteConst = true; e->leaves = 1; }
        else if (e->k == K::Ite && e->b->iteConst && e->d->iteConst) {
            e->iteConst = true;
            e->leaves = (uint16_t)std::min<unsigned>(60000, e->b->leaves + e->d->leaves);
        } else { e->iteConst = false; e->leaves = 0; }
        t[i] = e;
        if (++n * 2 > t.size()) {
            std::vector<Expr *> o(t.size() * 2, nullptr);
            o.swap(t);
            for (auto *x : o)
                if (x) {
                    uint64_t j = h(*x) & (t.size() - 1);
                    while (t[j]) j = (j + 1) & (t.size() - 1);
                    t[j] = x;
                }
        }
        return e;
    }
} table;

E node(K k, unsigned w, E a = nullptr, E b = nullptr, E d = nullptr, uint64_t c = 0, unsigned lo = 0)
{
    Expr p;
    memset(&p, 0, sizeof p);
    p.k = k; p.w = (uint8_t)w; p.a = a; p.b = b; p.d = d; p.c = c; p.lo = (uint8_t)lo;
    return table.intern(p);
}
std::unordered_map<std::string, E> varTab;
constexpr unsigned LEAFCAP = 48;
constexpr unsigned PRODCAP = 24;

// Apply f to the leaves of an ite-of-constants tree.
template <class F> E mapLeaves(E e, F &&f)
{
    std::unordered_map<E, E> memo;
    std::function<E(E)> go = [&](E x) -> E {
        if (x->k == K::Const) return f(x);
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        E r = mkIte(x->a, go(x->b), go(x->d));
        memo[x] = r;
        return r;
    };
    return go(e);
}
bool isPow2(uint64_t v) { return v && !(v & (v - 1)); }
unsigned log2u(uint64_t v) { return 63 - __builtin_clzll(v); }
} // namespace

uint32_t exprCount() { return nextId; }

E mkConst(uint64_t v, unsigned w)
{
    if (w == 0 || w > 64) { fprintf(stderr, "mkConst: bad width %u\n", w); abort(); }
    return node(K::Const, w, nullptr, nullptr, nullptr, v & maskw(w));
}
E mkVar(const std::string &name, unsigned w)
{
    auto it = varTab.find(name);
    if (it != varTab.end()) {
        if (it->second->w != w) { fprintf(stderr, "variable %s width mismatch\n", name.c_str()); abort(); }
        return it->second;
    }
    gVars.push_back({name, w});
    E e = node(K::Var, w, nullptr, nullptr, nullptr, gVars.size() - 1);
    varTab[name] = e;
    return e;
}

uint64_t evalBin(K k, uint64_t a, uint64_t b, unsigned w)
{
    uint64_t m = maskw(w);
    a &= m; b &= m;
    int64_t sa = sextw(a, w), sb = sextw(b, w);
    switch (k) {
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Add: return (a + b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b ? a / b : m;
    case K::URem: return b ? a % b : a;
    case K::SDiv:
        if (!b) return sa < 0 ? 1 : m;
        if (sb == -1) return (0 - a) & m;
        return (uint64_t)(sa / sb) & m;
    case K::SRem:
        if (!b) return a;
        if (sb == -1) return 0;
        return (uint64_t)(sa % sb) & m;
    case K::Shl: return b >= w ? 0 : (a << b) & m;
    case K::LShr: return b >= w ? 0 : a >> b;
    case K::AShr: return b >= w ? (sa < 0 ? m : 0) : (uint64_t)(sa >> b) & m;
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sa < sb;
    case K::Sle: return sa <= sb;
    default: abort();
    }
}
static bool isCmp(K k) { return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle; }

E mkNot(E a)
{
    if (gNoSimplify) return node(K::Not, a->w, a);
    if (a->isConst()) return mkConst(~a->c, a->w);
    if (a->k == K::Not) return a->a;
    if (a->iteConst && a->leaves <= LEAFCAP && a->w > 1) return mapLeaves(a, [](E x) { return mkConst(~x->c, x->w); });
    if (a->w == 1) {
        if (a->k == K::Ult) return mkBin(K::Ule, a->b, a->a);
        if (a->k == K::Ule) return mkBin(K::Ult, a->b, a->a);
        if (a->k == K::Slt) return mkBin(K::Sle, a->b, a->a);
        if (a->k == K::Sle) return mkBin(K::Slt, a->b, a->a);
    }
    return node(K::Not, a->w, a);
}
static bool complement(E a, E b) { return a == mkNot(b); }

E mkAnd(E a, E b)
{
    if (gNoSimplify) return node(K::And, a->w, a, b);
    if (a == b) return a;
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (a->isConst()) return mkConst(a->c & b->c, a->w);
        if (b->c == 0) return b;
        if (b->c == maskw(b->w)) return a;
        if (a->iteConst && a->leaves <= LEAFCAP) return mapLeaves(a, [&](E x) { return mkConst(x->c & b->c, x->w); });
        if (a->k == K::And && a->b->isConst()) return mkAnd(a->a, mkConst(a->b->c & b->c, a->w));
        // contiguous mask -> extract
        uint64_t v = b->c;
        unsigned tz = __builtin_ctzll(v);
        if (isPow2((v >> tz) + 1) ) {
            unsigned len = log2u((v >> tz) + 1);
            if (tz + len <= a->w) {
                E mid = mkExtract(a, tz, len);
                if (tz) mid = mkConcat(mid, mkConst(0, tz));
                return mkZExt(mid, a->w);
            }
        }
        if (a->k == K::Or && a->b->isConst()) // (x|k1)&k2
            return mkOr(mkAnd(a->a, b), mkConst(a->b->c & b->c, a->w));
        return node(K::And, a->w, a, b);
    }
    if (a->w == 1) {
        if (complement(a, b)) return mkFalse();
        for (int s = 0; s < 2; s++, std::swap(a, b)) {
            if (b->k == K::Or) {
                if (b->a == a || b->b == a) return a;
                if (complement(b->a, a)) return mkAnd(a, b->b);
                if (complement(b->b, a)) return mkAnd(a, b->a);
            }
            if (b->k == K::And) {
                if (b->a == a || b->b == a) return b;
                if (complement(b->a, a) || complement(b->b, a)) return mkFalse();
            }
            if (b->k == K::Ite) {
                if (b->a == a) return mkAnd(a, b->b);
                if (complement(b->a, a)) return mkAnd(a, b->d);
            }
            // equalities of one term with different constants
            if (a->k == K::Eq && b->k == K::Eq && a->b->isConst() && b->b->isConst() && a->a == b->a) return mkFalse();
            if (a->k == K::Eq && b->k == K::Not && b->a->k == K::Eq && a->a == b->a->a && a->b->isConst() && b->a->b->isConst()) return a;
        }
    }
    if (a->id > b->id) std::swap(a, b);
    return node(K::And, a->w, a, b);
}
E mkOr(E a, E b)
{
    if (gNoSimplify) return node(K::Or, a->w, a, b);
    if (a == b) return a;
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (a->isConst()) return mkConst(a->c | b->c, a->w);
        if (b->c == 0) return a;
        if (b->c == maskw(b->w)) return b;
        if (a->iteConst && a->leaves <= LEAFCAP) return mapLeaves(a, [&](E x) { return mkConst(x->c | b->c, x->w); });
        if (a->k == K::Or && a->b->isConst()) return mkOr(a->a, mkConst(a->b->c | b->c, a->w));
        return node(K::Or, a->w, a, b);
    }
    if (a->w == 1) {
        if (complement(a, b)) return mkTrue();
        for (int s = 0; s < 2; s++, std::swap(a, b)) {
            if (b->k == K::And) {
                if (b->a == a || b->b == a) return a;
                if (complement(b->a, a)) return mkOr(a, b->b);
                if (complement(b->b, a)) return mkOr(a, b->a);
                if (a->k == K::And) {
                    // (x&y)|(x&!y) = x ; (x&y)|(x&z) = x&(y|z)
                    if (a->a == b->a) return mkAnd(a->a, mkOr(a->b, b->b));
                    if (a->a == b->b) return mkAnd(a->a, mkOr(a->b, b->a));
                    if (a->b == b->a) return mkAnd(a->b, mkOr(a->a, b->b));
                    if (a->b == b->b) return mkAnd(a->b, mkOr(a->a, b->a));
                }
            }
            if (b->k == K::Or) {
                if (b->a == a || b->b == a) return b;
                if (complement(b->a, a) || complement(b->b, a)) return mkTrue();
            }
        }
    }
    if (a->id > b->id) std::swap(a, b);
    return node(K::Or, a->w, a, b);
}
E mkXor(E a, E b)
{
    if (gNoSimplify) return node(K::Xor, a->w, a, b);
    if (a == b) return mkConst(0, a->w);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (a->isConst()) return mkConst(a->c ^ b->c, a->w);
        if (b->c == 0) return a;
        if (b->c == maskw(b->w)) return mkNot(a);
        if (a->iteConst && a->leaves <= LEAFCAP) return mapLeaves(a, [&](E x) { return mkConst(x->c ^ b->c, x->w); });
        if (a->k == K::Xor && a->b->isConst()) return mkXor(a->a, mkConst(a->b->c ^ b->c, a->w));
        return node(K::Xor, a->w, a, b);
    }
    if (a->w == 1 && complement(a, b)) return mkTrue();
    if (a->id > b->id) std::swap(a, b);
    return node(K::Xor, a->w, a, b);
}

// push a binary operator into ite trees when the result stays small
static E pushIte(K k, E a, E b)
{
    if (a->iteConst && b->iteConst) {
        if (b->isConst() && a->leaves <= LEAFCAP)
            return mapLeaves(a, [&](E x) { return mkBin(k, x, b); });
        if (a->isConst() && b->leaves <= LEAFCAP)
            return mapLeaves(b, [&](E x) { return mkBin(k, a, x); });
        if (a->k == K::Ite && b->k == K::Ite && a->a == b->a && (unsigned)a->leaves + b->leaves <= LEAFCAP)
            return mkIte(a->a, mkBin(k, a->b, b->b), mkBin(k, a->d, b->d));
        if ((unsigned)a->leaves * b->leaves <= PRODCAP)
            return mapLeaves(a, [&](E x) { return mkBin(k, x, b); });
    } else if (a->k == K::Ite && b->k == K::Ite && a->a == b->a) {
        if (a->b->isConst() || a->d->isConst() || b->b->isConst() || b->d->isConst())
            return mkIte(a->a, mkBin(k, a->b, b->b), mkBin(k, a->d, b->d));
    }
    return nullptr;
}

E mkAdd(E a, E b)
{
    if (gNoSimplify) return node(K::Add, a->w, a, b);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (a->isConst()) return mkConst(a->c + b->c, a->w);
        if (b->c == 0) return a;
        if (a->k == K::Add && a->b->isConst()) return mkAdd(a->a, mkConst(a->b->c + b->c, a->w));
        // ite with one constant branch: keep pointer trees normalised
        if (a->k == K::Ite && !a->iteConst && (a->b->isConst() || a->d->isConst() || a->b->k == K::Add || a->d->k == K::Add))
            return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->d, b));
    }
    if (a->w == 1) return mkXor(a, b);
    if (E r = pushIte(K::Add, a, b)) return r;
    if (b->isConst()) return node(K::Add, a->w, a, b);
    // float constants outwards
    if (a->k == K::Add && a->b->isConst()) return mkAdd(mkAdd(a->a, b), a->b);
    if (b->k == K::Add && b->b->isConst()) return mkAdd(mkAdd(a, b->a), b->b);
    // x + (-1)*x
    auto isNegOf = [](E x, E y) { return x->k == K::Mul && x->b->isConst() && (x->b->c == maskw(x->w) ? x->a == y
        : y->k == K::Mul && y->b->isConst() && y->a == x->a && ((x->b->c + y->b->c) & maskw(x->w)) == 0); };
    if (isNegOf(a, b) || isNegOf(b, a)) return mkConst(0, a->w);
    // (x / c) * c + x % c = x
    for (int s = 0; s < 2; s++, std::swap(a, b))
        if (a->k == K::Mul && a->b->isConst() && (a->a->k == K::SDiv || a->a->k == K::UDiv) && a->a->b == a->b
            && b->k == (a->a->k == K::SDiv ? K::SRem : K::URem) && b->b == a->b && b->a == a->a->a)
            return b->a;
    // (p + x) + (-1)*x = p
    for (int s = 0; s < 2; s++, std::swap(a, b))
        if (a->k == K::Add) {
            if (isNegOf(b, a->a) || isNegOf(a->a, b)) return a->b;
            if (isNegOf(b, a->b) || isNegOf(a->b, b)) return a->a;
        }
    if (a->id > b->id) std::swap(a, b);
    return node(K::Add, a->w, a, b);
}
E mkSub(E a, E b)
{
    if (gNoSimplify) return mkAdd(a, mkMul(b, mkConst(maskw(b->w), b->w)));
    if (a == b) return mkConst(0, a->w);
    if (b->isConst()) return mkAdd(a, mkConst(0 - b->c, b->w));
    if (a->iteConst && b->iteConst && ((unsigned)a->leaves * b->leaves <= PRODCAP || (a->k == K::Ite && b->k == K::Ite && a->a == b->a))) {
        // distribute directly
        if (a->k == K::Ite && b->k == K::Ite && a->a == b->a) return mkIte(a->a, mkSub(a->b, b->b), mkSub(a->d, b->d));
        return mapLeaves(a, [&](E x) { return mapLeaves(b, [&](E y) { return mkConst(x->c - y->c, x->w); }); });
    }
    return mkAdd(a, mkMul(b, mkConst(maskw(b->w), b->w)));
}
E mkMul(E a, E b)
{
    if (gNoSimplify) return node(K::Mul, a->w, a, b);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (a->isConst()) return mkConst(a->c * b->c, a->w);
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if (a->iteConst && a->leaves <= LEAFCAP) return mapLeaves(a, [&](E x) { return mkConst(x->c * b->c, x->w); });
        if (b->c == maskw(b->w)) {
            if (a->k == K::Mul && a->b->isConst()) return mkMul(a->a, mkConst(0 - a->b->c, a->w));
            // -(x + y) = -x + -y keeps differences cancelling
            if (a->k == K::Add) return mkAdd(mkMul(a->a, b), mkMul(a->b, b));
            return node(K::Mul, a->w, a, b);
        }
        if (isPow2(b->c)) return mkBin(K::Shl, a, mkConst(log2u(b->c), a->w));
        if (a->k == K::Mul && a->b->isConst()) return mkMul(a->a, mkConst(a->b->c * b->c, a->w));
        return node(K::Mul, a->w, a, b);
    }
    if (E r = pushIte(K::Mul, a, b)) return r;
    if (a->id > b->id) std::swap(a, b);
    return node(K::Mul, a->w, a, b);
}

E mkEq(E a, E b)
{
    if (gNoSimplify) return node(K::Eq, 1, a, b);
    if (a == b) return mkTrue();
    if (a->isConst()) std::swap(a, b);
    if (a->isConst() && b->isConst()) return mkBool(a->c == b->c);
    if (a->w == 1) {
        if (b->isConst()) return b->c ? a : mkNot(a);
        return mkNot(mkXor(a, b));
    }
    if (b->isConst()) {
        if (a->iteConst) return mapLeaves(a, [&](E x) { return mkBool(x->c == b->c); });
        switch (a->k) {
        case K::ZExt:
            if (b->c & ~maskw(a->a->w)) return mkFalse();
            return mkEq(a->a, mkConst(b->c, a->a->w));
        case K::SExt: {
            uint64_t t = b->c & maskw(a->a->w);
            if (((uint64_t)sextw(t, a->a->w) & maskw(a->w)) != b->c) return mkFalse();
            return mkEq(a->a, mkConst(t, a->a->w));
        }
        case K::Concat: {
            unsigned lw = a->b->w;
            return mkAnd(mkEq(a->a, mkConst(b->c >> lw, a->a->w)), mkEq(a->b, mkConst(b->c, lw)));
        }
        case K::Add:
            if (a->b->isConst()) return mkEq(a->a, mkConst(b->c - a->b->c, a->w));
            break;
        case K::Xor:
            if (a->b->isConst()) return mkEq(a->a, mkConst(b->c ^ a->b->c, a->w));
            break;
        case K::Not: return mkEq(a->a, mkConst(~b->c, a->w));
        case K::Ite:
            if (a->b->isConst() || a->d->isConst() || a->b->k == K::Ite || a->d->k == K::Ite || a->b->k == K::Concat || a->d->k == K::Concat
                || a->b->k == K::ZExt || a->d->k == K::ZExt)
                return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
            break;
        case K::Or:
            if (a->b->isConst() && (a->b->c & ~b->c)) return mkFalse();
            break;
        case K::And:
            if (a->b->isConst() && (b->c & ~a->b->c)) return mkFalse();
            break;
        default: break;
        }
    } else {
        if (a->iteConst && b->iteConst) {
            if (a->k == K::Ite && b->k == K::Ite && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->d, b->d));
            if ((unsigned)a->leaves * b->leaves <= 400) return mapLeaves(a, [&](E x) { return mkEq(b, x); });
        }
        if (a->k == K::Ite && b->k == K::Ite && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->d, b->d));
        if (b->k == K::Ite) std::swap(a, b);
        if (a->k == K::Ite) {
            if (a->b == b) return mkOr(a->a, mkEq(a->d, b));
            if (a->d == b) return mkOr(mkNot(a->a), mkEq(a->b, b));
        }
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == K::Add && b->k == K::Add && a->b->isConst() && b->b->isConst() ) {
            if (a->a == b->a) return mkBool(a->b->c == b->b->c);
            return mkEq(a->a, mkAdd(b->a, mkConst(b->b->c - a->b->c, a->w)));
        }
        if (a->k == K::Add && a->a == b && a->b->isConst()) return mkFalse(); // nonzero constant
        if (b->k == K::Add && b->a == a && b->b->isConst()) return mkFalse();
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return node(K::Eq, 1, a, b);
}

E mkBin(K k, E a, E b)
{
    if (a->w != b->w) { fprintf(stderr, "mkBin: width mismatch %u %u kind %d\n", a->w, b->w, (int)k); abort(); }
    unsigned w = a->w;
    if (gNoSimplify) return node(k, isCmp(k) ? 1 : w, a, b);
    switch (k) {
    case K::And: return mkAnd(a, b);
    case K::Or: return mkOr(a, b);
    case K::Xor: return mkXor(a, b);
    case K::Add: return mkAdd(a, b);
    case K::Mul: return mkMul(a, b);
    case K::Eq: return mkEq(a, b);
    default: break;
    }
    if (a->isConst() && b->isConst()) return mkConst(evalBin(k, a->c, b->c, w), isCmp(k) ? 1 : w);
    if (E r = pushIte(k, a, b)) return r;
    switch (k) {
    case K::Ult:
        if (a == b) return mkFalse();
        if (b->isConst() && b->c == 0) return mkFalse();
        if (b->isConst() && b->c == 1) return mkEq(a, mkConst(0, w));
        if (a->isConst() && a->c == maskw(w)) return mkFalse();
        if (a->isConst() && a->c == 0) return mkNot(mkEq(b, a));
        if (w == 1) return mkAnd(mkNot(a), b);
        if (a->k == K::ZExt && b->isConst()) {
            if (b->c > maskw(a->a->w)) return mkTrue();
            return mkBin(K::Ult, a->a, mkConst(b->c, a->a->w));
        }
        if (b->k == K::ZExt && a->isConst()) {
            if (a->c >= maskw(b->a->w)) return mkFalse();
            return mkBin(K::Ult, mkConst(a->c, b->a->w), b->a);
        }
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ult, a->a, b->a);
        break;
    case K::Ule:
        if (a == b) return mkTrue();
        if (a->isConst() && a->c == 0) return mkTrue();
        if (b->isConst() && b->c == maskw(w)) return mkTrue();
        if (b->isConst()) return mkBin(K::Ult, a, mkConst(b->c + 1, w));
        if (a->isConst()) return mkBin(K::Ult, mkConst(a->c - 1, w), b);
        if (w == 1) return mkOr(mkNot(a), b);
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ule, a->a, b->a);
        break;
    case K::Slt:
        if (a == b) return mkFalse();
        if (w == 1) return mkAnd(a, mkNot(b));
        if (a->k == K::ZExt && b->isConst() && a->a->w < w) {
            if (sextw(b->c, w) <= 0) return mkFalse();
            return mkBin(K::Ult, a, b);
        }
        if (b->k == K::ZExt && a->isConst() && b->a->w < w) {
            if (sextw(a->c, w) < 0) return mkTrue();
            return mkBin(K::Ult, a, b);
        }
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w < w && b->a->w < w) return mkBin(K::Ult, a, b);
        break;
    case K::Sle:
        if (a == b) return mkTrue();
        if (w == 1) return mkOr(a, mkNot(b));
        if (b->isConst() && b->c != maskw(w - 1)) return mkBin(K::Slt, a, mkConst(b->c + 1, w));
        if (a->isConst() && a->c != (1ull << (w - 1))) return mkBin(K::Slt, mkConst(a->c - 1, w), b);
        break;
    case K::Shl:
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkConst(0, (unsigned)b->c));
        }
        break;
    case K::LShr:
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            return mkZExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        }
        break;
    case K::AShr:
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkSExt(mkExtract(a, w - 1, 1), w);
            return mkSExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        }
        break;
    case K::UDiv:
        if (b->isConst() && b->c == 1) return a;
        if (b->isConst() && isPow2(b->c)) return mkBin(K::LShr, a, mkConst(log2u(b->c), w));
        break;
    case K::URem:
        if (b->isConst() && isPow2(b->c)) return mkAnd(a, mkConst(b->c - 1, w));
        break;
    case K::SDiv:
        if (b->isConst() && b->c == 1) return a;
        break;
    default: break;
    }
    return node(k, isCmp(k) ? 1 : w, a, b);
}

E mkIte(E c, E a, E b)
{
    if (gNoSimplify) return node(K::Ite, a->w, c, a, b);
    if (a->w != b->w) { fprintf(stderr, "mkIte: width mismatch %u %u\n", a->w, b->w); abort(); }
    if (c->isConst()) return c->c ? a : b;
    if (a == b) return a;
    if (c->k == K::Not) { c = c->a; std::swap(a, b); }
    if (a->k == K::Ite && a->a == c) a = a->b;
    if (b->k == K::Ite && b->a == c) b = b->d;
    if (a == b) return a;
    if (a->w == 1) {
        if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == c) return mkOr(c, b);
        if (b == c) return mkAnd(c, a);
    }
    if (b->k == K::Ite) {
        if (b->b == a) return mkIte(mkOr(c, b->a), a, b->d);
        if (b->d == a) return mkIte(mkOr(c, mkNot(b->a)), a, b->b);
    }
    if (a->k == K::Ite) {
        if (a->d == b) return mkIte(mkAnd(c, a->a), a->b, b);
        if (a->b == b) return mkIte(mkAnd(c, mkNot(a->a)), a->d, b);
    }
    if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
        return mkConcat(mkIte(c, a->a, b->a), mkIte(c, a->b, b->b));
    return node(K::Ite, a->w, c, a, b);
}

namespace {
struct Cof {
    std::unordered_map<E, bool> lits;
    std::unordered_map<E, E> memo;
    int budget = 400;
    void assume(E g, bool v)
    {
        if (g->isConst() || lits.size() > 64) return;
        lits[g] = v;
        if (g->k == K::Not) assume(g->a, !v);
        else if (g->k == K::And && v) { assume(g->a, true); assume(g->b, true); }
        else if (g->k == K::Or && !v) { assume(g->a, false); assume(g->b, false); }
    }
    E go(E x, int depth)
    {
        if (x->k == K::Const || x->k == K::Var) {
            if (x->w == 1) { auto it = lits.find(x); if (it != lits.end()) return mkConst(it->second, 1); }
            return x;
        }
        if (x->w == 1) { auto it = lits.find(x); if (it != lits.end()) return mkConst(it->second, 1); }
        if (depth <= 0 || budget <= 0) return x;
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        budget--;
        E r = x;
        switch (x->k) {
        case K::Ite: {
            E c = go(x->a, depth - 1);
            if (c->isConst()) { r = go(c->c ? x->b : x->d, depth - 1); break; }
            E b = go(x->b, depth - 1), d = go(x->d, depth - 1);
            if (c != x->a || b != x->b || d != x->d) r = mkIte(c, b, d);
            break;
        }
        case K::Not: { E a = go(x->a, depth - 1); if (a != x->a) r = mkNot(a); break; }
        case K::And: case K::Or: case K::Xor: case K::Add: case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: {
            E a = go(x->a, depth - 1), b = go(x->b, depth - 1);
            if (a != x->a || b != x->b) r = mkBin(x->k, a, b);
            break;
        }
        case K::Concat: { E a = go(x->a, depth - 1), b = go(x->b, depth - 1); if (a != x->a || b != x->b) r = mkConcat(a, b); break; }
        case K::Extract: { E a = go(x->a, depth - 1); if (a != x->a) r = mkExtract(a, x->lo, x->w); break; }
        case K::ZExt: { E a = go(x->a, depth - 1); if (a != x->a) r = mkZExt(a, x->w); break; }
        default: break;
        }
        memo[x] = r;
        return r;
    }
};
} // namespace
E cofactor(E x, E g, bool v)
{
    if (x->isConst() || g->isConst()) return x;
    Cof c;
    c.assume(g, v);
    return c.go(x, 14);
}

E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "mkConcat: width %u\n", w); abort(); }
    if (gNoSimplify) return node(K::Concat, w, hi, lo);
    if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, w);
    if (hi->isConst() && hi->c == 0) return mkZExt(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkExtract(lo->a, lo->lo, w);
    if (hi->k == K::Concat && hi->b->k == K::Extract && lo->k == K::Extract && hi->b->a == lo->a && hi->b->lo == lo->lo + lo->w)
        return mkConcat(hi->a, mkExtract(lo->a, lo->lo, hi->b->w + lo->w));
    // right-nested normal form: (a . b) . c -> a . (b . c)
    if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
    if (hi->iteConst && lo->isConst() && hi->leaves <= LEAFCAP) return mapLeaves(hi, [&](E x) { return mkConst((x->c << lo->w) | lo->c, w); });
    if (lo->iteConst && hi->isConst() && lo->leaves <= LEAFCAP) return mapLeaves(lo, [&](E x) { return mkConst((hi->c << x->w) | x->c, w); });
    return node(K::Concat, w, hi, lo);
}

E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo + w > a->w) { fprintf(stderr, "mkExtract: %u+%u > %u\n", lo, w, a->w); abort(); }
    if (gNoSimplify) return node(K::Extract, w, a, nullptr, nullptr, 0, lo);
    if (lo == 0 && w == a->w) return a;
    switch (a->k) {
    case K::Const: return mkConst(a->c >> lo, w);
    case K::Extract: return mkExtract(a->a, a->lo + lo, w);
    case K::Concat: {
        unsigned lw = a->b->w;
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K::ZExt: {
        unsigned iw = a->a->w;
        if (lo >= iw) return mkConst(0, w);
        if (lo + w <= iw) return mkExtract(a->a, lo, w);
        return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case K::SExt: {
        unsigned iw = a->a->w;
        if (lo + w <= iw) return mkExtract(a->a, lo, w);
        if (lo >= iw) return mkSExt(mkExtract(a->a, iw - 1, 1), w);
        return mkSExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case K::Ite: {
        auto good = [](E x) { return x->k == K::Const || x->k == K::Concat || x->k == K::ZExt || x->k == K::Ite || x->k == K::Extract || x->k == K::SExt; };
        if (a->iteConst && a->leaves <= LEAFCAP) return mapLeaves(a, [&](E x) { return mkConst(x->c >> lo, w); });
        if (good(a->b) || good(a->d)) {
            // memoised push to avoid exponential growth on shared dags
            std::unordered_map<E, E> memo;
            int budget = 400;
            std::function<E(E)> go = [&](E x) -> E {
                if (x->k != K::Ite || budget <= 0) {
                    if (x->k == K::Ite) return node(K::Extract, w, x, nullptr, nullptr, 0, lo);
                    return mkExtract(x, lo, w);
                }
                auto it = memo.find(x);
                if (it != memo.end()) return it->second;
                budget--;
                E r = mkIte(x->a, go(x->b), go(x->d));
                memo[x] = r;
                return r;
            };
            return go(a);
        }
        break;
    }
    case K::And:
    case K::Or:
    case K::Xor:
        if (a->b->isConst()) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        break;
    case K::Not: return mkNot(mkExtract(a->a, lo, w));
    case K::Add:
    case K::Mul:
        if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    default: break;
    }
    return node(K::Extract, w, a, nullptr, nullptr, 0, lo);
}
E mkZExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (w < a->w) return mkExtract(a, 0, w);
    if (gNoSimplify) return node(K::ZExt, w, a);
    if (a->isConst()) return mkConst(a->c, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->iteConst && a->leaves <= LEAFCAP) return mapLeaves(a, [&](E x) { return mkConst(x->c, w); });
    return node(K::ZExt, w, a);
}
E mkSExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (w < a->w) return mkExtract(a, 0, w);
    if (gNoSimplify) return node(K::SExt, w, a);
    if (a->isConst()) return mkConst((uint64_t)sextw(a->c, a->w), w);
    if (a->k == K::SExt) return mkSExt(a->a, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->iteConst && a->leaves <= LEAFCAP) return mapLeaves(a, [&](E x) { return mkConst((uint64_t)sextw(x->c, x->w), w); });
    return node(K::SExt, w, a);
}

// Memo tables are shared by a small number of recently used models.
namespace {
struct Slot {
    uint64_t uid = 0, used = 0;
    uint32_t epoch = 0;
    std::vector<uint64_t> memo;
    std::vector<uint32_t> stamp;
};
Slot slots[12];
uint64_t slotClock = 0, modelUid = 0;
struct HasProxy {
    Slot &s;
    bool operator[](uint32_t i) const { return s.stamp[i] == s.epoch; }
};
}
Model::Model() : uid(++modelUid) {}
Model::Model(const Model &o) : vars(o.vars), uid(++modelUid) {}
uint64_t Model::eval(E root)
{
    if (root->isConst()) return root->c;
    Slot *sl = nullptr;
    for (auto &x : slots) if (x.uid == uid) { sl = &x; break; }
    if (!sl) {
        sl = &slots[0];
        for (auto &x : slots) if (x.used < sl->used) sl = &x;
        sl->uid = uid;
        sl->epoch++;
    }
    sl->used = ++slotClock;
    if (sl->memo.size() < exprCount()) { sl->memo.resize(exprCount() * 5 / 4 + 4096); sl->stamp.resize(sl->memo.size(), 0); }
    auto &memo = sl->memo;
    auto &stamp = sl->stamp;
    uint32_t epoch = sl->epoch;
    HasProxy has{*sl};
    if (has[root->id]) return memo[root->id];
    std::vector<E> st{root};
    while (!st.empty()) {
        E e = st.back();
        if (has[e->id]) { st.pop_back(); continue; }
        bool ready = true;
        if (e->k == K::Ite) {
            // evaluate only the chosen branch
            if (!has[e->a->id]) { st.push_back(e->a); continue; }
            E br = memo[e->a->id] ? e->b : e->d;
            if (!has[br->id]) { st.push_back(br); continue; }
            memo[e->id] = memo[br->id];
            stamp[e->id] = epoch;
            st.pop_back();
            continue;
        }
        for (E ch : {e->a, e->b})
            if (ch && !has[ch->id]) { st.push_back(ch); ready = false; }
        if (!ready) continue;
        uint64_t r = 0;
        auto A = [&] { return memo[e->a->id]; };
        auto B = [&] { return memo[e->b->id]; };
        switch (e->k) {
        case K::Const: r = e->c; break;
        case K::Var: r = e->c < vars.size() ? vars[e->c] & maskw(e->w) : 0; break;
        case K::Not: r = ~A() & maskw(e->w); break;
        case K::Concat: r = (A() << e->b->w) | B(); break;
        case K::Extract: r = (A() >> e->lo) & maskw(e->w); break;
        case K::ZExt: r = A(); break;
        case K::SExt: r = (uint64_t)sextw(A(), e->a->w) & maskw(e->w); break;
        default: r = evalBin(e->k, A(), B(), e->a->w); break;
        }
        memo[e->id] = r;
        stamp[e->id] = epoch;
        st.pop_back();
    }
    return memo[root->id];
}

std::string show(E e, int depth)
{
    static const char *n[] = {"const", "var", "not", "and", "or", "xor", "add", "mul", "udiv", "sdiv", "urem", "srem",
                              "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext"};
    if (!e) return "null";
    char buf[64];
    if (e->isConst()) { snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->c, e->w); return buf; }
    if (e->k == K::Var) return gVars[e->c].name;
    if (depth == 0) { snprintf(buf, sizeof buf, "#%u", e->id); return buf; }
    std::string s = std::string("(") + n[(int)e->k];
    if (e->k == K::Extract) { snprintf(buf, sizeof buf, "[%u+%u]", e->lo, e->w); s += buf; }
    if (e->k == K::ZExt || e->k == K::SExt) { snprintf(buf, sizeof buf, "[%u]", e->w); s += buf; }
    for (E c : {e->a, e->b, e->d})
        if (c) s += " " + show(c, depth - 1);
    return s + ")";
}

// Random differential test: the same random term built raw and simplified
// must evaluate equally under random assignments.
int exprSelfTest(unsigned seed, int n)
{
    srand(seed);
    auto rnd = [] { return ((uint64_t)rand() << 33) ^ ((uint64_t)rand() << 11) ^ rand(); };
    for (int it = 0; it < n; it++) {
        std::vector<std::pair<E, E>> pool; // simplified, raw
        for (unsigned w : {1u, 8u, 32u, 64u})
            for (int i = 0; i < 3; i++) {
                char nm[32];
                snprintf(nm, sizeof nm, "t%u_%d", w, i);
                E v = mkVar(nm, w);
                pool.push_back({v, v});
                uint64_t c = rand() % 3 ? rand() % 5 : rnd();
                if (rand() % 8 == 0) c = maskw(w);
                if (rand() % 8 == 0) c = 1ull << (rand() % w);
                pool.push_back({mkConst(c, w), mkConst(c, w)});
            }
        for (int i = 0; i < 60; i++) {
            auto pick = [&](unsigned w) {
                for (;;) { auto &p = pool[rand() % pool.size()]; if (!w || p.first->w == w) return p; }
            };
            auto x = pick(0);
            unsigned w = x.first->w;
            std::function<E(E, E, E)> f;
            auto y = pick(w), c = pick(1);
            int op = rand() % 26;
            unsigned lo = rand() % w, ew = 1 + rand() % (w - lo), zw = w + rand() % (65 - w);
            f = [&](E a, E b, E cc) -> E {
                switch (op) {
                case 0: return mkNot(a);
                case 1: return mkAnd(a, b);
                case 2: return mkOr(a, b);
                case 3: return mkXor(a, b);
                case 4: case 25: return mkAdd(a, b);
                case 5: return mkSub(a, b);
                case 6: return mkMul(a, b);
                case 7: return mkBin(K::UDiv, a, b);
                case 8: return mkBin(K::SDiv, a, b);
                case 9: return mkBin(K::URem, a, b);
                case 10: return mkBin(K::SRem, a, b);
                case 11: return mkBin(K::Shl, a, b);
                case 12: return mkBin(K::LShr, a, b);
                case 13: return mkBin(K::AShr, a, b);
                case 14: case 15: return mkEq(a, b);
                case 16: return mkBin(K::Ult, a, b);
                case 17: return mkBin(K::Ule, a, b);
                case 18: return mkBin(K::Slt, a, b);
                case 19: return mkBin(K::Sle, a, b);
                case 20: case 21: return mkIte(cc, a, b);
                case 22: return w <= 32 ? mkConcat(a, b) : mkAdd(a, b);
                case 23: return mkExtract(a, lo, ew);
                default: return rand() % 2 ? mkZExt(a, zw) : mkZExt(a, zw);
                }
            };
            bool sx = op == 24 && rand() % 2;
            E s = sx ? mkSExt(x.first, zw) : f(x.first, y.first, c.first);
            gNoSimplify = true;
            E r = sx ? mkSExt(x.second, zw) : f(x.second, y.second, c.second);
            gNoSimplify = false;
            if (s->w != r->w) { fprintf(stderr, "selftest: width differs op %d\n", op); return 1; }
            pool.push_back({s, r});
        }
        for (int m = 0; m < 6; m++) {
            Model mo;
            for (size_t v = 0; v < gVars.size(); v++) mo.set(v, (rand() % 2 ? rand() % 4 : rnd()) & maskw(gVars[v].w));
            for (auto &p : pool)
                if (mo.eval(p.first) != mo.eval(p.second)) {
                    fprintf(stderr, "selftest mismatch:\n  %s\n  %s\n", show(p.first, 8).c_str(), show(p.second, 8).c_str());
                    return 1;
                }
        }
    }
    return 0;
}
