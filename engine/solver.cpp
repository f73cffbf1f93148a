#include "solver.h"
#include <chrono>
#include <cstdio>
#include <fstream>
#include <unordered_set>
#include <z3++.h>

SolverStats gSolver;
unsigned gQueryTimeoutMs = 120000;
std::string gDumpDir;
unsigned gDumpEvery = 0;

PCRef pcAdd(PCRef p, E e)
{
    if (e->isTrue()) return p;
    if (e->k == K::And) return pcAdd(pcAdd(p, e->a), e->b);
    for (PCRef q = p; q; q = q->up)
        if (q->e == e) return p;
    PC *n = new PC{e, p, p ? p->depth + 1 : 1, (p ? p->hash : 1469598103934665603ull) * 1099511628211ull + e->id};
    return n;
}

namespace {
z3::context &ctx()
{
    static z3::context *c = new z3::context;
    return *c;
}
struct Conv {
    std::vector<z3::expr *> cache; // by expr id
    z3::expr bv1(const z3::expr &b) { return b.is_bool() ? z3::ite(b, ctx().bv_val(1, 1), ctx().bv_val(0, 1)) : b; }
    z3::expr get(E root)
    {
        if (cache.size() < exprCount()) cache.resize(exprCount() + 4096, nullptr);
        if (cache[root->id]) return *cache[root->id];
        std::vector<E> st{root};
        while (!st.empty()) {
            E e = st.back();
            if (cache[e->id]) { st.pop_back(); continue; }
            bool ready = true;
            for (E ch : {e->a, e->b, e->d})
                if (ch && !cache[ch->id]) { st.push_back(ch); ready = false; }
            if (!ready) continue;
            cache[e->id] = new z3::expr(one(e));
            st.pop_back();
        }
        return *cache[root->id];
    }
    // width-1 terms are Bool, everything else is a bit-vector
    z3::expr one(E e)
    {
        auto &c = ctx();
        auto A = [&] { return *cache[e->a->id]; };
        auto B = [&] { return *cache[e->b->id]; };
        auto D = [&] { return *cache[e->d->id]; };
        bool b1 = e->w == 1;
        auto bin1 = [&] { return e->a->w == 1; };
        auto fromBit = [&](const z3::expr &x) { return x.is_bool() ? x : x == c.bv_val(1, 1); };
        switch (e->k) {
        case K::Const: return b1 ? c.bool_val(e->c != 0) : c.bv_val((uint64_t)e->c, (unsigned)e->w);
        case K::Var: {
            std::string n = "v" + std::to_string(e->c);
            return b1 ? c.bool_const(n.c_str()) : c.bv_const(n.c_str(), e->w);
        }
        case K::Not: return b1 ? !A() : ~A();
        case K::And: return b1 ? (A() && B()) : (A() & B());
        case K::Or: return b1 ? (A() || B()) : (A() | B());
        case K::Xor: return b1 ? (A() != B()) : (A() ^ B());
        case K::Add: return b1 ? (A() != B()) : A() + B();
        case K::Mul: return b1 ? (A() && B()) : A() * B();
        case K::UDiv: return b1 ? fromBit(z3::udiv(bv1(A()), bv1(B()))) : z3::udiv(A(), B());
        case K::SDiv: return b1 ? fromBit(bv1(A()) / bv1(B())) : A() / B();
        case K::URem: return b1 ? fromBit(z3::urem(bv1(A()), bv1(B()))) : z3::urem(A(), B());
        case K::SRem: return b1 ? fromBit(z3::srem(bv1(A()), bv1(B()))) : z3::srem(A(), B());
        case K::Shl: return b1 ? fromBit(z3::shl(bv1(A()), bv1(B()))) : z3::shl(A(), B());
        case K::LShr: return b1 ? fromBit(z3::lshr(bv1(A()), bv1(B()))) : z3::lshr(A(), B());
        case K::AShr: return b1 ? fromBit(z3::ashr(bv1(A()), bv1(B()))) : z3::ashr(A(), B());
        case K::Eq: return A() == B();
        case K::Ult: return bin1() ? (!A() && B()) : z3::ult(A(), B());
        case K::Ule: return bin1() ? (!A() || B()) : z3::ule(A(), B());
        case K::Slt: return bin1() ? (A() && !B()) : z3::slt(A(), B());
        case K::Sle: return bin1() ? (A() || !B()) : z3::sle(A(), B());
        case K::Ite: return z3::ite(A(), B(), D());
        case K::Concat: return z3::concat(bv1(A()), bv1(B()));
        case K::Extract: {
            z3::expr x = bv1(A()).extract(e->lo + e->w - 1, e->lo);
            return b1 ? fromBit(x) : x;
        }
        case K::ZExt: return z3::zext(bv1(A()), e->w - e->a->w);
        case K::SExt: return z3::sext(bv1(A()), e->w - e->a->w);
        }
        abort();
    }
};
Conv &conv()
{
    static Conv *c = new Conv;
    return *c;
}
std::vector<std::shared_ptr<Model>> recent;
} // namespace

bool satisfies(Model &m, PCRef pc, E extra)
{
    if (!m.eval(extra)) return false;
    for (PCRef q = pc; q; q = q->up)
        if (!m.eval(q->e)) return false;
    return true;
}

static void dumpQuery(PCRef pc, E extra, Sat r)
{
    static unsigned n = 0;
    z3::solver s(ctx());
    for (PCRef q = pc; q; q = q->up) s.add(conv().get(q->e));
    s.add(conv().get(extra));
    std::ofstream f(gDumpDir + "/q" + std::to_string(n++) + (r == Sat::Yes ? ".sat" : ".unsat") + ".smt2");
    f << "(set-logic QF_BV)\n" << s.to_smt2();
}

Sat solve(PCRef pc, E extra, std::shared_ptr<Model> *model)
{
    gSolver.queries++;
    if (extra->isFalse()) { gSolver.trivial++; gSolver.unsat++; return Sat::No; }
    E ne = mkNot(extra);
    for (PCRef q = pc; q; q = q->up)
        if (q->e == ne) { gSolver.trivial++; gSolver.unsat++; return Sat::No; }
    for (size_t i = recent.size(); i-- > 0;)
        if (satisfies(*recent[i], pc, extra)) {
            gSolver.modelHits++;
            gSolver.sat++;
            auto m = recent[i];
            if (model) *model = m;
            if (i + 1 != recent.size()) std::swap(recent[i], recent[recent.size() - 1]);
            return Sat::Yes;
        }
    auto t0 = std::chrono::steady_clock::now();
    // a fresh solver per query, so that only the relevant terms are converted:
    // the lazy SMT core first, full bit-blasting if that takes long
    static z3::tactic *lazy = new z3::tactic(ctx(), "smt"), *eager = new z3::tactic(ctx(), "qfbv");
    gSolver.z3calls++;
    z3::check_result r = z3::unknown;
    std::unique_ptr<z3::solver> solp;
    for (int round = 0; round < 2 && r == z3::unknown; round++) {
        solp = std::make_unique<z3::solver>((round ? eager : lazy)->mk_solver());
        z3::params p(ctx());
        p.set("timeout", round ? gQueryTimeoutMs : std::min(gQueryTimeoutMs, 3000u));
        solp->set(p);
        for (PCRef q = pc; q; q = q->up) solp->add(conv().get(q->e));
        solp->add(conv().get(extra));
        try {
            r = solp->check();
        } catch (z3::exception &ex) {
            if (round) fprintf(stderr, "z3: %s\n", ex.msg());
        }
    }
    z3::solver &sol = *solp;
    Sat res = r == z3::sat ? Sat::Yes : r == z3::unsat ? Sat::No : Sat::Unknown;
    if (res == Sat::Yes) {
        gSolver.sat++;
        auto m = std::make_shared<Model>();
        z3::model zm = sol.get_model();
        for (unsigned i = 0; i < zm.num_consts(); i++) {
            z3::func_decl d = zm.get_const_decl(i);
            std::string n = d.name().str();
            if (n.size() < 2 || n[0] != 'v' || !isdigit((unsigned char)n[1])) continue;
            z3::expr v = zm.get_const_interp(d);
            uint64_t idx = std::stoull(n.substr(1));
            m->set(idx, v.is_bool() ? (uint64_t)v.is_true() : v.get_numeral_uint64());
        }
        if (!satisfies(*m, pc, extra)) {
            fprintf(stderr, "engine: model returned by z3 does not satisfy the query\n");
            fflush(stderr);
            _Exit(4);
        }
        recent.push_back(m);
        if (recent.size() > 24) recent.erase(recent.begin());
        if (model) *model = m;
    } else if (res == Sat::No)
        gSolver.unsat++;
    else
        gSolver.unknown++;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolver.seconds += dt;
    if (dt > gSolver.maxQuery) gSolver.maxQuery = dt;
    if (gDumpEvery && !gDumpDir.empty() && gSolver.z3calls % gDumpEvery == 0 && res != Sat::Unknown) dumpQuery(pc, extra, res);
    return res;
}
