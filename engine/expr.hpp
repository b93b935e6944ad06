// Hash-consed bit-vector expression DAG with local simplification.
// Width-1 expressions double as booleans. Widths up to 128 bits; vectors and
// aggregates are AGG nodes whose kids are ordinary expressions.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <unordered_map>
#include <vector>
typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_VAR, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR,
  O_XOR, O_SHL, O_LSHR, O_ASHR, O_ULT, O_SLT, O_EQ, O_ITE, O_CONCAT,
  O_EXTRACT, O_SEXT, O_AGG
};

struct Expr {
  u8 op;
  u16 width;
  u32 id;
  u32 nk;
  u128 c;  // CONST: value; VAR: index; EXTRACT: low bit
  const Expr* k[3];
  const Expr** ak;  // AGG kids
  u64 hash;
  const Expr* hnext;
  mutable u32 evStamp;
  mutable u128 evVal;
  mutable void* z3bv;
  mutable void* z3bool;
  mutable int ordS, ordU;  // node numbers in the order database (unused: -1)
  bool isConst() const { return op == O_CONST; }
  u64 cv() const { return (u64)c; }
  bool isTrue() const { return op == O_CONST && width == 1 && c == 1; }
  bool isFalse() const { return op == O_CONST && width == 1 && c == 0; }
};
typedef const Expr* E;

struct Model {
  std::vector<u128> v;  // by variable index, missing = 0
  u32 stamp;
};

u128 maskw(unsigned w);
E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);  // interned by name
const std::string& varName(E v);
unsigned numVars();
E varByIndex(unsigned i);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkAgg(const std::vector<E>& kids);
inline E mkBool(bool b) { return mkConst(b, 1); }
// operand of a logical NOT (width-1 XOR with 1), or null
inline E notOperand(E e) {
  return e->op == O_XOR && e->width == 1 && e->k[1]->isConst() ? e->k[0] : nullptr;
}
u128 evalExpr(E e, const Model& m);
u32 newModelStamp();
size_t numExprs();
std::string toStr(E e, int depth = 6);
