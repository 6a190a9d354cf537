// Hash-consed bit-vector expressions (width 1..128) with local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace symx {
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

enum Op : u8 {
    OP_CONST, OP_VAR, OP_CONCAT, OP_EXTRACT, OP_ZEXT, OP_SEXT,
    OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM,
    OP_AND, OP_OR, OP_XOR, OP_NOT, OP_SHL, OP_LSHR, OP_ASHR,
    OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_ITE
};

struct Expr;
typedef const Expr* E;

struct Expr {
    Op op;
    uint16_t width;
    u32 id;
    E a, b, c;      // operands (concat: a = high, b = low; ite: a = cond)
    u128 val;       // const value, var id, extract offset
    // memo fields
    mutable const std::vector<u32>* support;
    mutable u64 epoch;
    mutable u128 memo;
    mutable void* z3bv;
    mutable void* z3bool;
};

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextOf(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskOf(w);
    return (i128)((v ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkVar(u32 varid, unsigned w);
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned off, unsigned w);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkIte(E c, E t, E f);
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
inline bool isConst(E e) { return e->op == OP_CONST; }
inline bool isTrue(E e) { return e->op == OP_CONST && e->width == 1 && e->val == 1; }
inline bool isFalse(E e) { return e->op == OP_CONST && e->width == 1 && e->val == 0; }
E rebuild(E x, E a, E b, E c);  // x with other operands
E mkTrue();
E mkFalse();

struct VarInfo {
    std::string name;
    unsigned width;
};
extern std::vector<VarInfo> g_vars;
u32 newVar(const std::string& name, unsigned width);

typedef std::vector<u64> Model;  // var id -> value (missing = 0)
u128 evalExpr(E e, const Model& m);
const std::vector<u32>& supportOf(E e);
unsigned knownTrailingZeros(E e);
// unsigned upper bound implied by structure
u128 structMax(E e);
std::string toString(E e, int depth = 6);
size_t numExprs();
}  // namespace symx
