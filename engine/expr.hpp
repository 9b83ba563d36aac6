// Hash-consed bit-vector expressions (widths 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <z3.h>

enum Op : uint8_t {
  O_CONST, O_SYM, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ADD, O_SUB, O_MUL,
  O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE
};

typedef std::vector<uint64_t> SymSet;

struct Expr {
  Op op;
  uint8_t w;
  uint64_t val;  // CONST: value; SYM: id; EXTRACT: low bit
  const Expr *a, *b, *c;
  uint64_t umin, umax;
  uint64_t hash;
  mutable Z3_ast zbv, zbool;
  mutable const SymSet* syms;
  mutable uint64_t epoch;
  mutable uint64_t eval;
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

E mkConst(uint64_t v, unsigned w);
E mkSym(uint32_t id);
E mkConcat(E hi, E lo);
E mkExtract(E x, unsigned lo, unsigned w);
E mkZext(E x, unsigned w);
E mkSext(E x, unsigned w);
E mkBin(Op op, E a, E b);
E mkEq(E a, E b);
E mkNot(E a);  // width 1
E mkIte(E c, E a, E b);
static inline bool isConst(E e) { return e->op == O_CONST; }
const SymSet* symsOf(E e);
uint64_t constBin(Op op, uint64_t a, uint64_t b, unsigned w);

typedef std::vector<uint8_t> Model;  // indexed by symbol id; missing = 0
void evalNewEpoch();
uint64_t evalExpr(E e, const Model& m);  // call evalNewEpoch() first when the model changes
Z3_context zctx();
Z3_ast toBV(E e);
Z3_ast toBool(E e);
std::string exprStr(E e, int depth = 4);
size_t exprCount();
