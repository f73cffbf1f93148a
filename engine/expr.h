// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

enum class K : uint8_t {
    Const, Var, Not, And, Or, Xor, Add, Mul, UDiv, SDiv, URem, SRem,
    Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt
};

struct Expr {
    K k;
    uint8_t w;          // width in bits, 1..64
    uint8_t lo;         // Extract: low bit
    bool iteConst;      // Const, or Ite whose branches are iteConst
    uint16_t leaves;    // number of leaves if iteConst (capped)
    uint32_t id;
    uint64_t c;         // Const: value, Var: variable index
    const Expr *a, *b, *d;
    bool isConst() const { return k == K::Const; }
    bool isTrue() const { return k == K::Const && w == 1 && c == 1; }
    bool isFalse() const { return k == K::Const && w == 1 && c == 0; }
};
using E = const Expr *;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> gVars;
extern bool gNoSimplify; // self test: build raw nodes

uint32_t exprCount();
E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &name, unsigned w); // interned by name
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkBin(K k, E a, E b); // any binary kind
E mkEq(E a, E b);
E mkIte(E c, E a, E b);
E cofactor(E x, E g, bool v); // x simplified under the assumption g == v (may return x)
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkBool(bool b) { return mkConst(b, 1); }
uint64_t evalBin(K k, uint64_t a, uint64_t b, unsigned w);

struct Model {
    std::vector<uint64_t> vars; // by variable index (absent: 0)
    uint64_t uid;
    Model();
    Model(const Model &o);
    Model &operator=(const Model &) = delete;
    void set(uint64_t i, uint64_t v) { if (vars.size() <= i) vars.resize(i + 1, 0); vars[i] = v; }
    uint64_t eval(E e);
};
std::string show(E e, int depth = 6);
int exprSelfTest(unsigned seed, int n);
