// Hash-consed bit-vector expressions with construction-time simplification,
// unsigned ranges, known-zero bits, model evaluation and translation to Z3.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr,
  AShr, Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite,
  FAdd, FSub, FMul, FDiv, FCmp, FToSI, FToUI, SIToF, UIToF, FToF, FSqrt,
  FRound, FRem, FFun,
};

struct Expr {
  Op op;
  uint16_t w;
  uint32_t id;
  uint32_t aux;      // Extract: low bit; Var: index; FCmp: predicate; ...
  uint32_t hash;
  const Expr *a, *b, *c;
  u128 k;
  uint64_t lo, hi;   // unsigned range, meaningful for w <= 64
  uint64_t zeros;    // known-zero bits, w <= 64
  uint32_t leaves;   // > 0: an Ite tree with this many constant leaves
  uint32_t depth;
  bool fp;           // contains a floating-point operation
  mutable uint64_t stamp;
  mutable u128 val;
  mutable Z3_ast z, zb;
  mutable const std::vector<uint32_t>* vars;
  bool isConst() const { return op == Op::Const; }
};
typedef const Expr* E;

static inline u128 maskW(unsigned w) {
  return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
static inline uint64_t mask64(unsigned w) {
  return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
static inline i128 sextW(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  return (i128)((v ^ s) - s);
}
static inline int64_t sext64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t s = 1ull << (w - 1);
  return (int64_t)((v ^ s) - s);
}

struct Model {
  std::vector<uint64_t> v;  // by variable index
  uint64_t id = 0;
};

// FP helpers on bit patterns.
static inline double bitsD(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline uint64_t dBits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline float bitsF(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
static inline uint32_t fBits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }

u128 foldOp(Op op, unsigned w, uint32_t aux, unsigned wa, u128 a, u128 b, u128 c,
            unsigned wb);

struct ExprMgr {
  std::vector<Expr*> table;
  size_t count = 0;
  std::vector<std::string> varNames;
  std::vector<uint16_t> varW;
  std::vector<E> varE;
  char* arena = nullptr;
  size_t arenaLeft = 0;
  ExprMgr() { table.assign(1 << 16, nullptr); }

  Expr* alloc() {
    if (arenaLeft < sizeof(Expr)) {
      arenaLeft = 1 << 22;
      arena = (char*)malloc(arenaLeft);
    }
    Expr* e = (Expr*)arena;
    arena += (sizeof(Expr) + 15) & ~15ull;
    arenaLeft -= (sizeof(Expr) + 15) & ~15ull;
    return e;
  }
  E intern(Op op, unsigned w, uint32_t aux, E a, E b, E c, u128 k);
  E cst(u128 k, unsigned w) { return intern(Op::Const, w, 0, 0, 0, 0, k & maskW(w)); }
  E tru() { return cst(1, 1); }
  E fls() { return cst(0, 1); }
  E var(const std::string& n, unsigned w) {
    uint32_t i = varNames.size();
    varNames.push_back(n);
    varW.push_back(w);
    E e = intern(Op::Var, w, i, 0, 0, 0, i);
    varE.push_back(e);
    return e;
  }
  E bin(Op op, E a, E b);
  E cmp(Op op, E a, E b);
  E eq(E a, E b) { return cmp(Op::Eq, a, b); }
  E not1(E a) { return bin(Op::Xor, a, tru()); }
  E and1(E a, E b) { return bin(Op::And, a, b); }
  E or1(E a, E b) { return bin(Op::Or, a, b); }
  E extract(E a, unsigned lo, unsigned w);
  E concat(E hi, E lo);
  E zext(E a, unsigned w);
  E sext(E a, unsigned w);
  E trunc(E a, unsigned w) { return extract(a, 0, w); }
  E ite(E c, E a, E b);
  E fop(Op op, unsigned w, uint32_t aux, E a, E b = nullptr);
  template <class F> E mapLeaves(E t, F f) {
    if (t->isConst()) return f(t);
    std::unordered_map<E, E> memo;
    return mapLeavesRec(t, f, memo);
  }
  template <class F> E mapLeavesRec(E t, F& f, std::unordered_map<E, E>& memo) {
    if (t->isConst()) return f(t);
    auto it = memo.find(t);
    if (it != memo.end()) return it->second;
    E x = mapLeavesRec(t->b, f, memo), y = mapLeavesRec(t->c, f, memo);
    E r = ite(t->a, x, y);
    memo[t] = r;
    return r;
  }
  u128 eval(E e, const Model& m);
  const std::vector<uint32_t>& varsOf(E e);
  bool usesFP(E e) { return e->fp; }
  Z3_ast toBV(Z3_context z, E e);
  Z3_ast toBool(Z3_context z, E e);
};
extern ExprMgr X;
E isNot1(E e);
std::string exprStr(E e, int depth = 6);
