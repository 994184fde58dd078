#include "expr.h"
#include <algorithm>

ExprMgr X;

static uint32_t mix(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return (uint32_t)h;
}

static void setRange(Expr* e);

E ExprMgr::intern(Op op, unsigned w, uint32_t aux, E a, E b, E c, u128 k) {
  uint64_t h = (uint64_t)op * 0x9e3779b97f4a7c15ULL + w * 1315423911u + aux * 2654435761u;
  h = h * 31 + (a ? a->id + 1 : 0);
  h = h * 1000003 + (b ? b->id + 1 : 0);
  h = h * 1000033 + (c ? c->id + 1 : 0);
  h ^= (uint64_t)k * 0x100000001b3ULL ^ (uint64_t)(k >> 64) * 0x1b873593;
  uint32_t hh = mix(h);
  size_t m = table.size() - 1;
  size_t i = hh & m;
  while (table[i]) {
    Expr* t = table[i];
    if (t->hash == hh && t->op == op && t->w == w && t->aux == aux && t->a == a &&
        t->b == b && t->c == c && t->k == k)
      return t;
    i = (i + 1) & m;
  }
  Expr* e = alloc();
  memset(e, 0, sizeof *e);
  e->op = op; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->k = k;
  e->hash = hh;
  e->id = count++;
  e->fp = (op >= Op::FAdd) || (a && a->fp) || (b && b->fp) || (c && c->fp);
  e->depth = 1 + std::max(a ? a->depth : 0u, std::max(b ? b->depth : 0u, c ? c->depth : 0u));
  if (op == Op::Const) e->leaves = 1;
  else if (op == Op::Ite && b->leaves && c->leaves) e->leaves = b->leaves + c->leaves;
  if (w <= 64) setRange(e);
  table[i] = e;
  if (count * 2 > table.size()) {
    std::vector<Expr*> nt(table.size() * 2, nullptr);
    size_t nm = nt.size() - 1;
    for (Expr* t : table) if (t) {
      size_t j = t->hash & nm;
      while (nt[j]) j = (j + 1) & nm;
      nt[j] = t;
    }
    table.swap(nt);
  }
  return e;
}

static uint64_t topMask(uint64_t hi) {  // all bits that can be set for v <= hi
  if (hi == 0) return 0;
  int l = 63 - __builtin_clzll(hi);
  return l == 63 ? ~0ull : (1ull << (l + 1)) - 1;
}

static void setRange(Expr* e) {
  uint64_t m = mask64(e->w);
  uint64_t lo = 0, hi = m, z = 0;
  E a = e->a, b = e->b;
  bool sm = (!a || a->w <= 64) && (!b || b->w <= 64);
  switch (e->op) {
    case Op::Const: lo = hi = (uint64_t)e->k; z = m & ~lo; break;
    case Op::Add: {
      u128 l = (u128)a->lo + b->lo, h = (u128)a->hi + b->hi;
      if (h <= m) lo = l, hi = h;
      else if (l > m && h <= (u128)m * 2 + 1) lo = (uint64_t)l & m, hi = (uint64_t)h & m;
      uint64_t az = a->zeros, bz = b->zeros;
      uint64_t lowz = az & bz;
      int t = __builtin_ctzll(~lowz | 0);
      if (~lowz == 0) t = 64;
      z = t >= 64 ? m : ((1ull << t) - 1);
      // Disjoint bits: add is or.
      if ((~az & m & ~bz) == 0) z |= az & bz;
      break;
    }
    case Op::Sub: {
      if (a->lo >= b->hi) lo = a->lo - b->hi, hi = a->hi - b->lo;
      uint64_t lowz = a->zeros & b->zeros;
      int t = ~lowz == 0 ? 64 : __builtin_ctzll(~lowz);
      z = t >= 64 ? m : ((1ull << t) - 1);
      break;
    }
    case Op::Mul: {
      u128 h = (u128)a->hi * b->hi;
      if (h <= m) lo = a->lo * b->lo, hi = h;
      int ta = ~a->zeros == 0 ? 64 : __builtin_ctzll(~a->zeros);
      int tb = ~b->zeros == 0 ? 64 : __builtin_ctzll(~b->zeros);
      int t = ta + tb;
      z = t >= 64 ? m : ((1ull << t) - 1);
      break;
    }
    case Op::UDiv: if (b->lo) lo = a->lo / b->hi, hi = a->hi / b->lo; break;
    case Op::URem: if (b->lo) hi = std::min(a->hi, b->hi - 1); break;
    case Op::And: hi = std::min(a->hi, b->hi); z = a->zeros | b->zeros; break;
    case Op::Or: lo = std::max(a->lo, b->lo); z = a->zeros & b->zeros; hi = topMask(a->hi | b->hi); break;
    case Op::Xor: z = a->zeros & b->zeros; hi = topMask(a->hi | b->hi); break;
    case Op::Shl:
      if (b->isConst()) {
        uint64_t s = (uint64_t)b->k;
        if (s < e->w) {
          if (a->hi <= (m >> s)) lo = a->lo << s, hi = a->hi << s;
          z = ((a->zeros << s) | ((1ull << s) - 1)) & m;
        }
      } else if (b->hi < e->w && a->hi <= (m >> b->hi)) {
        lo = a->lo << b->lo; hi = a->hi << b->hi;
      }
      break;
    case Op::LShr:
      if (b->isConst()) {
        uint64_t s = (uint64_t)b->k;
        if (s < e->w) {
          lo = a->lo >> s, hi = a->hi >> s;
          z = ((a->zeros >> s) | ~(m >> s)) & m;
        }
      } else hi = b->lo < 64 ? a->hi >> b->lo : 0;
      break;
    case Op::AShr:
      if (b->isConst() && a->hi <= (m >> 1)) {
        uint64_t s = (uint64_t)b->k;
        if (s < e->w) lo = a->lo >> s, hi = a->hi >> s;
      }
      break;
    case Op::Concat:
      if (sm) {
        unsigned wb = b->w;
        lo = (a->lo << wb) | b->lo; hi = (a->hi << wb) | b->hi;
        z = (a->zeros << wb) | b->zeros;
      }
      break;
    case Op::Extract:
      if (a->w <= 64) {
        if (e->aux == 0) { if (a->hi <= m) lo = a->lo, hi = a->hi; }
        else if ((a->hi >> e->aux) <= m) lo = a->lo >> e->aux, hi = a->hi >> e->aux;
        z = (a->zeros >> e->aux) & m;
      }
      break;
    case Op::ZExt: if (a->w <= 64) { lo = a->lo; hi = a->hi; z = a->zeros | (m & ~mask64(a->w)); } break;
    case Op::SExt:
      if (a->w <= 64 && a->hi <= (mask64(a->w) >> 1)) { lo = a->lo; hi = a->hi; z = a->zeros | (m & ~mask64(a->w)); }
      break;
    case Op::Ite:
      lo = std::min(b->lo, e->c->lo); hi = std::max(b->hi, e->c->hi);
      z = b->zeros & e->c->zeros;
      break;
    default: break;
  }
  // Cross-tighten.
  z |= m & ~topMask(hi);
  uint64_t maxz = m & ~z;
  if (hi > maxz) hi = maxz;
  if (lo > hi) lo = hi;  // only possible for infeasible expressions
  e->lo = lo; e->hi = hi; e->zeros = z & m;
}

static bool fcmp(uint32_t p, double x, double y) {
  bool u = std::isnan(x) || std::isnan(y);
  switch (p & 7) {
    case 0: return (p & 8) ? u : false;
    default: break;
  }
  // LLVM: bit0 EQ, bit1 GT, bit2 LT, bit3 UNO
  if (u) return p & 8;
  if (x == y) return p & 1;
  if (x > y) return p & 2;
  return p & 4;
}

static double getF(u128 v, unsigned w) { return w == 64 ? bitsD((uint64_t)v) : (double)bitsF((uint32_t)v); }
static u128 putF(double d, unsigned w) { return w == 64 ? (u128)dBits(d) : (u128)fBits((float)d); }

u128 foldOp(Op op, unsigned w, uint32_t aux, unsigned wa, u128 a, u128 b, u128 c, unsigned wb) {
  u128 m = maskW(w);
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? a / b : m;
    case Op::URem: return b ? a % b : a;
    case Op::SDiv: {
      if (!b) return 0;
      i128 x = sextW(a, w), y = sextW(b, w);
      if (y == -1) return (u128)(-x) & m;
      return (u128)(x / y) & m;
    }
    case Op::SRem: {
      if (!b) return a;
      i128 x = sextW(a, w), y = sextW(b, w);
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case Op::AShr: { i128 x = sextW(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextW(a, wa) < sextW(b, wa);
    case Op::Sle: return sextW(a, wa) <= sextW(b, wa);
    case Op::Concat: return (a << wb) | b;
    case Op::Extract: return (a >> aux) & m;
    case Op::ZExt: return a;
    case Op::SExt: return (u128)sextW(a, wa) & m;
    case Op::Ite: return a ? b : c;
    case Op::FAdd: return w == 64 ? putF(getF(a, w) + getF(b, w), w) : (u128)fBits(bitsF(a) + bitsF(b));
    case Op::FSub: return w == 64 ? putF(getF(a, w) - getF(b, w), w) : (u128)fBits(bitsF(a) - bitsF(b));
    case Op::FMul: return w == 64 ? putF(getF(a, w) * getF(b, w), w) : (u128)fBits(bitsF(a) * bitsF(b));
    case Op::FDiv: return w == 64 ? putF(getF(a, w) / getF(b, w), w) : (u128)fBits(bitsF(a) / bitsF(b));
    case Op::FRem: return putF(std::fmod(getF(a, w), getF(b, w)), w);
    case Op::FCmp: return fcmp(aux, getF(a, wa), getF(b, wa));
    case Op::FToSI: {
      double d = getF(a, wa);
      if (!(d > -9.3e18 && d < 9.3e18)) return ((u128)1 << 63) & m;
      if (d >= 9223372036854775807.0) return ((u128)1 << 63) & m;
      return (u128)(i128)(int64_t)d & m;
    }
    case Op::FToUI: {
      double d = getF(a, wa);
      if (!(d > -1 && d < 18446744073709551616.0)) return ((u128)1 << 63) & m;
      return (u128)(uint64_t)d & m;
    }
    case Op::SIToF: return w == 64 ? putF((double)sextW(a, wa), w) : (u128)fBits((float)(int64_t)sextW(a, wa));
    case Op::UIToF: return w == 64 ? putF((double)a, w) : (u128)fBits((float)(uint64_t)a);
    case Op::FToF: return putF(getF(a, wa), w);
    case Op::FSqrt: return putF(std::sqrt(getF(a, w)), w);
    case Op::FRound: {
      double d = getF(a, w);
      switch (aux) { case 0: d = std::floor(d); break; case 1: d = std::ceil(d); break;
        case 2: d = std::trunc(d); break; case 3: d = std::round(d); break; default: d = std::nearbyint(d); }
      return putF(d, w);
    }
    case Op::FFun: {
      double d = getF(a, w);
      switch (aux) { case 0: d = std::log(d); break; case 1: d = std::log2(d); break; case 2: d = std::exp(d); break;
        case 3: d = std::log10(d); break; case 4: d = std::log1p(d); break; case 5: d = std::exp2(d); break;
        default: break; }
      return putF(d, w);
    }
    default: fprintf(stderr, "foldOp: op %d\n", (int)op); abort();
  }
}

static bool isBoolOp(Op o) {
  return o == Op::Eq || o == Op::Ult || o == Op::Ule || o == Op::Slt || o == Op::Sle || o == Op::FCmp;
}

E isNot1(E e) {
  if (e->w == 1 && e->op == Op::Xor && e->b->isConst() && e->b->k == 1) return e->a;
  return nullptr;
}

static const uint32_t kLeafMax = 3000;

E ExprMgr::bin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "bin width mismatch op %d %d %d\n", (int)op, a->w, b->w); abort(); }
  if (a->isConst() && b->isConst()) return cst(foldOp(op, w, 0, w, a->k, b->k, 0, w), w);
  bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  u128 m = maskW(w);
  if (b->isConst()) {
    u128 k = b->k;
    switch (op) {
      case Op::Add:
        if (k == 0) return a;
        if (a->op == Op::Add && a->b->isConst()) return bin(Op::Add, a->a, cst(a->b->k + k, w));
        if (a->op == Op::Sub && a->a->isConst()) return bin(Op::Sub, cst(a->a->k + k, w), a->b);
        break;
      case Op::Sub:
        if (k == 0) return a;
        return bin(Op::Add, a, cst((u128)0 - k, w));
      case Op::Mul:
        if (k == 0) return b;
        if (k == 1) return a;
        if ((k & (k - 1)) == 0) {
          unsigned s = 0; while (((u128)1 << s) != k) s++;
          return bin(Op::Shl, a, cst(s, w));
        }
        if (a->op == Op::Mul && a->b->isConst()) return bin(Op::Mul, a->a, cst(a->b->k * k, w));
        if (a->op == Op::Add && a->b->isConst()) return bin(Op::Add, bin(Op::Mul, a->a, b), cst(a->b->k * k, w));
        break;
      case Op::And:
        if (k == 0) return b;
        if (k == m) return a;
        if (w <= 64) {
          if ((~a->zeros & mask64(w) & ~(uint64_t)k) == 0) return a;  // mask keeps all possible bits
          if ((~a->zeros & mask64(w) & (uint64_t)k) == 0) return cst(0, w);
        }
        if (a->op == Op::And && a->b->isConst()) return bin(Op::And, a->a, cst(a->b->k & k, w));
        // Low mask: zext(extract)
        if ((k & (k + 1)) == 0) {
          unsigned n = 0; while (n < 128 && ((k >> n) & 1)) n++;
          return zext(extract(a, 0, n), w);
        }
        break;
      case Op::Or:
        if (k == 0) return a;
        if (k == m) return b;
        if (a->op == Op::Or && a->b->isConst()) return bin(Op::Or, a->a, cst(a->b->k | k, w));
        break;
      case Op::Xor:
        if (k == 0) return a;
        if (a->op == Op::Xor && a->b->isConst()) return bin(Op::Xor, a->a, cst(a->b->k ^ k, w));
        if (w == 1 && k == 1) {
          if (a->op == Op::Ult) return cmp(Op::Ule, a->b, a->a);
          if (a->op == Op::Ule) return cmp(Op::Ult, a->b, a->a);
          if (a->op == Op::Slt) return cmp(Op::Sle, a->b, a->a);
          if (a->op == Op::Sle) return cmp(Op::Slt, a->b, a->a);
        }
        break;
      case Op::Shl:
        if (k == 0) return a;
        if (k >= w) return cst(0, w);
        if (a->op == Op::Shl && a->b->isConst()) return a->b->k + k >= w ? cst(0, w) : bin(Op::Shl, a->a, cst(a->b->k + k, w));
        if (a->op == Op::LShr && a->b == b) return bin(Op::And, a->a, cst((m >> (unsigned)k) << (unsigned)k, w));
        if (a->op == Op::Add && a->b->isConst()) return bin(Op::Add, bin(Op::Shl, a->a, b), cst(a->b->k << (unsigned)k, w));
        break;
      case Op::LShr:
        if (k == 0) return a;
        if (k >= w) return cst(0, w);
        return zext(extract(a, (unsigned)k, w - (unsigned)k), w);
      case Op::AShr:
        if (k == 0) return a;
        if (w <= 64 && a->hi <= (mask64(w) >> 1)) return bin(Op::LShr, a, b);
        break;
      case Op::UDiv:
        if (k == 1) return a;
        if (k && (k & (k - 1)) == 0) {
          unsigned s = 0; while (((u128)1 << s) != k) s++;
          return bin(Op::LShr, a, cst(s, w));
        }
        break;
      case Op::URem:
        if (k == 1) return cst(0, w);
        if (k && (k & (k - 1)) == 0) return bin(Op::And, a, cst(k - 1, w));
        if (w <= 64 && k && a->hi < (uint64_t)k) return a;
        break;
      default: break;
    }
    if (a->op == Op::Ite && a->leaves && a->leaves <= kLeafMax)
      return mapLeaves(a, [&](E t) { return bin(op, t, b); });
    if (a->op == Op::Ite && (a->b->isConst() || a->c->isConst()) && op != Op::Mul && op != Op::UDiv &&
        op != Op::URem && op != Op::SDiv && op != Op::SRem && a->depth < 40)
      return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
  } else if (a->isConst()) {  // non-commutative
    u128 k = a->k;
    if (k == 0 && (op == Op::Shl || op == Op::LShr || op == Op::AShr || op == Op::UDiv || op == Op::URem)) return a;
    if (b->op == Op::Ite && b->leaves && b->leaves <= kLeafMax)
      return mapLeaves(b, [&](E t) { return bin(op, a, t); });
    if (op == Op::Sub && b->op == Op::Add && b->b->isConst()) return bin(Op::Sub, cst(k - b->b->k, w), b->a);
  }
  if (a == b) {
    if (op == Op::Sub || op == Op::Xor) return cst(0, w);
    if (op == Op::And || op == Op::Or) return a;
  }
  if (w == 1) {
    if (op == Op::Mul) op = Op::And;
    if (op == Op::Add || op == Op::Sub) op = Op::Xor;
    if (op == Op::And) { if (isNot1(a) == b || isNot1(b) == a) return fls(); }
    if (op == Op::Or) { if (isNot1(a) == b || isNot1(b) == a) return tru(); }
  }
  if (op == Op::Add) {
    // (x - y) + y, canonicalise constants outward
    if (a->op == Op::Sub && a->b == b) return a->a;
    if (b->op == Op::Sub && b->b == a) return b->a;
    if (a->op == Op::Add && a->b->isConst()) return bin(Op::Add, bin(Op::Add, a->a, b), a->b);
    if (b->op == Op::Add && b->b->isConst()) return bin(Op::Add, bin(Op::Add, a, b->a), b->b);
  }
  if (op == Op::Sub) {
    if (a->op == Op::Add && a->a == b) return a->b;
    if (a->op == Op::Add && a->b == b) return a->a;
    if (a->op == Op::Add && a->b->isConst()) return bin(Op::Add, bin(Op::Sub, a->a, b), a->b);
    if (b->op == Op::Add && b->b->isConst()) return bin(Op::Add, bin(Op::Sub, a, b->a), cst((u128)0 - b->b->k, w));
    if (b->op == Op::Add && b->a == a) return bin(Op::Sub, cst(0, w), b->b);
    if (b->op == Op::Add && b->b == a) return bin(Op::Sub, cst(0, w), b->a);
  }
  if (op == Op::Or && w <= 64 && (~a->zeros & ~b->zeros & mask64(w)) == 0 && w > 1) {
    // Disjoint or: recognise concatenation  (zext(x) << s) | zext(y)
    auto tryCat = [&](E hiE, E loE) -> E {
      if (hiE->op == Op::Shl && hiE->b->isConst() && loE->op == Op::ZExt) {
        unsigned s = (unsigned)hiE->b->k;
        E lo = loE->a;
        if (lo->w <= s) {
          E hi = extract(hiE->a, 0, w - s);
          return concat(hi, lo->w < s ? zext(lo, s) : lo);
        }
      }
      return nullptr;
    };
    if (E r = tryCat(a, b)) return r;
    if (E r = tryCat(b, a)) return r;
  }
  if (a->op == Op::Ite && b->op == Op::Ite && a->a == b->a && w == 1)
    return ite(a->a, bin(op, a->b, b->b), bin(op, a->c, b->c));
  return intern(op, w, 0, a, b, nullptr, 0);
}

E ExprMgr::cmp(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "cmp width mismatch %d %d\n", a->w, b->w); abort(); }
  if (a->isConst() && b->isConst()) return cst(foldOp(op, 1, 0, w, a->k, b->k, 0, w), 1);
  if (a == b) return cst(op == Op::Eq || op == Op::Ule || op == Op::Sle, 1);
  if (op == Op::Eq && a->isConst()) std::swap(a, b);
  if (op == Op::Eq && !b->isConst() && a->id > b->id) std::swap(a, b);
  if (w <= 64) {
    uint64_t m = mask64(w);
    if (op == Op::Slt || op == Op::Sle) {
      uint64_t h = m >> 1;
      // both known non-negative
      if (a->hi <= h && b->hi <= h) op = op == Op::Slt ? Op::Ult : Op::Ule;
      else if (a->lo > h && b->lo > h) op = op == Op::Slt ? Op::Ult : Op::Ule;
      else if (a->lo > h && b->hi <= h) return tru();
      else if (a->hi <= h && b->lo > h) return fls();
    }
    if (op == Op::Ult) { if (a->hi < b->lo) return tru(); if (a->lo >= b->hi) return fls(); }
    if (op == Op::Ule) { if (a->hi <= b->lo) return tru(); if (a->lo > b->hi) return fls(); }
    if (op == Op::Eq) {
      if (a->hi < b->lo || b->hi < a->lo) return fls();
      if (b->isConst() && ((uint64_t)b->k & a->zeros)) return fls();
    }
    if (op == Op::Ule && b->isConst()) {
      if ((uint64_t)b->k == m) return tru();
      if (b->k == 0) return cmp(Op::Eq, a, b);
      return cmp(Op::Ult, a, cst(b->k + 1, w));
    }
    if (op == Op::Ule && a->isConst()) {
      if (a->k == 0) return tru();
      return cmp(Op::Ult, cst(a->k - 1, w), b);
    }
    if (op == Op::Ult && b->isConst() && b->k == 1) return cmp(Op::Eq, a, cst(0, w));
  }
  if (w == 1 && op == Op::Eq) {
    if (b->isConst()) return b->k ? a : not1(a);
    return not1(bin(Op::Xor, a, b));
  }
  if (b->isConst()) {
    if (op == Op::Eq) {
      switch (a->op) {
        case Op::Add: if (a->b->isConst()) return eq(a->a, cst(b->k - a->b->k, w)); break;
        case Op::Xor: if (a->b->isConst()) return eq(a->a, cst(b->k ^ a->b->k, w)); break;
        case Op::ZExt:
          if (b->k >> a->a->w) return fls();
          return eq(a->a, cst(b->k, a->a->w));
        case Op::SExt: {
          u128 t = b->k & maskW(a->a->w);
          if (((u128)sextW(t, a->a->w) & maskW(w)) != b->k) return fls();
          return eq(a->a, cst(t, a->a->w));
        }
        case Op::Concat:
          return and1(eq(a->a, cst(b->k >> a->b->w, a->a->w)), eq(a->b, cst(b->k, a->b->w)));
        case Op::Sub:
          if (b->k == 0) return eq(a->a, a->b);
          if (a->a->isConst()) return eq(a->b, cst(a->a->k - b->k, w));
          break;
        case Op::Shl:
          if (a->b->isConst() && w <= 64) {
            unsigned s = (unsigned)a->b->k;
            if (b->k & maskW(s)) return fls();
            return eq(extract(a->a, 0, w - s), cst(b->k >> s, w - s));
          }
          break;
        case Op::Mul:
          if (b->k == 0 && a->b->isConst() && (a->b->k & 1)) return eq(a->a, b);
          break;
        default: break;
      }
    }
    if (op == Op::Ult || op == Op::Ule) {
      if (a->op == Op::ZExt && !(b->k >> a->a->w)) return cmp(op, a->a, cst(b->k, a->a->w));
    }
    if (a->op == Op::Ite && a->leaves && a->leaves <= kLeafMax)
      return mapLeaves(a, [&](E t) { return cmp(op, t, b); });
    if (a->op == Op::Ite && (a->b->isConst() || a->c->isConst()) && a->depth < 60)
      return ite(a->a, cmp(op, a->b, b), cmp(op, a->c, b));
  } else if (a->isConst()) {
    if ((op == Op::Ult || op == Op::Ule) && b->op == Op::ZExt && !(a->k >> b->a->w))
      return cmp(op, cst(a->k, b->a->w), b->a);
    if (b->op == Op::Ite && b->leaves && b->leaves <= kLeafMax)
      return mapLeaves(b, [&](E t) { return cmp(op, a, t); });
    if (b->op == Op::Ite && (b->b->isConst() || b->c->isConst()) && b->depth < 60)
      return ite(b->a, cmp(op, a, b->b), cmp(op, a, b->c));
  } else {
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w && (op == Op::Eq || op == Op::Ult || op == Op::Ule))
      return cmp(op, a->a, b->a);
    if (op == Op::Eq && a->op == Op::Add && b->op == Op::Add && a->b == b->b && a->b->isConst()) return eq(a->a, b->a);
    if (op == Op::Eq && a->op == Op::Concat && b->op == Op::Concat && a->b->w == b->b->w)
      return and1(eq(a->a, b->a), eq(a->b, b->b));
    if (a->op == Op::Ite && b->op == Op::Ite && a->a == b->a) return ite(a->a, cmp(op, a->b, b->b), cmp(op, a->c, b->c));
  }
  return intern(op, 1, 0, a, b, nullptr, 0);
}

E ExprMgr::extract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) { fprintf(stderr, "extract range\n"); abort(); }
  if (a->isConst()) return cst(a->k >> lo, w);
  if (a->w <= 64 && ((~a->zeros >> lo) & mask64(w)) == 0) return cst(0, w);
  switch (a->op) {
    case Op::Extract: return extract(a->a, a->aux + lo, w);
    case Op::Concat:
      if (lo + w <= a->b->w) return extract(a->b, lo, w);
      if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
      return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
    case Op::ZExt:
      if (lo >= a->a->w) return cst(0, w);
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      return zext(extract(a->a, lo, a->a->w - lo), w);
    case Op::SExt:
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      if (lo == 0) return sext(a->a, w);
      break;
    case Op::Ite:
      if (a->leaves && a->leaves <= kLeafMax) return mapLeaves(a, [&](E t) { return extract(t, lo, w); });
      if (a->b->isConst() || a->c->isConst()) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
      {
        // Push down if at least one side simplifies structurally.
        auto simp = [](E t) { return t->op == Op::Concat || t->op == Op::ZExt || t->op == Op::Ite || t->isConst(); };
        if (simp(a->b) || simp(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
      }
      break;
    case Op::And: case Op::Or: case Op::Xor:
      if (a->b->isConst()) return bin(a->op, extract(a->a, lo, w), cst(a->b->k >> lo, w));
      break;
    case Op::Add: case Op::Sub: case Op::Mul:
      if (lo == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
      break;
    case Op::Shl:
      if (a->b->isConst()) {
        unsigned s = (unsigned)a->b->k;
        if (lo >= s) return extract(a->a, lo - s, w);
        if (lo + w <= s) return cst(0, w);
        return concat(extract(a->a, 0, lo + w - s), cst(0, s - lo));
      }
      break;
    default: break;
  }
  return intern(Op::Extract, w, lo, a, nullptr, nullptr, 0);
}

E ExprMgr::concat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return cst((hi->k << lo->w) | lo->k, w);
  if (hi->isConst() && hi->k == 0) return zext(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
    return extract(hi->a, lo->aux, w);
  if (lo->op == Op::Concat && hi->op == Op::Extract && lo->a->op == Op::Extract && hi->a == lo->a->a &&
      hi->aux == lo->a->aux + lo->a->w)
    return concat(extract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
  if (hi->op == Op::Extract && hi->a == lo && hi->aux == lo->w) return lo;  // not reachable
  if (hi->op == Op::Extract && lo->op == Op::Extract && false) return nullptr;
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a)
    return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
  if (hi->op == Op::Ite && lo->isConst() && hi->leaves && hi->leaves <= 300)
    return mapLeaves(hi, [&](E t) { return concat(t, lo); });
  if (lo->op == Op::Ite && hi->isConst() && lo->leaves && lo->leaves <= 300)
    return mapLeaves(lo, [&](E t) { return concat(hi, t); });
  // concat(0-ext hi...) keep zext outermost
  if (hi->op == Op::ZExt) return zext(concat(hi->a, lo), w);
  // Right-assoc: concat(concat(a,b),c) -> concat(a, concat(b,c)) so extracts meet.
  if (hi->op == Op::Concat) return concat(hi->a, concat(hi->b, lo));
  // sign bits: concat(extract(x, n..)) handled above
  return intern(Op::Concat, w, 0, hi, lo, nullptr, 0);
}

E ExprMgr::zext(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) { fprintf(stderr, "zext narrowing\n"); abort(); }
  if (a->isConst()) return cst(a->k, w);
  if (a->op == Op::ZExt) return zext(a->a, w);
  if (a->op == Op::Ite && a->leaves && a->leaves <= kLeafMax)
    return mapLeaves(a, [&](E t) { return zext(t, w); });
  if (a->op == Op::Ite && (a->b->isConst() || a->c->isConst()) && a->depth < 40)
    return ite(a->a, zext(a->b, w), zext(a->c, w));
  // zext(extract(x,0,n)) where x's upper bits are known zero and width(x)==w
  if (a->op == Op::Extract && a->aux == 0 && a->a->w <= 64 && a->a->w <= w &&
      ((~a->a->zeros & mask64(a->a->w)) >> a->w) == 0)
    return zext(a->a, w);
  return intern(Op::ZExt, w, 0, a, nullptr, nullptr, 0);
}

E ExprMgr::sext(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return cst((u128)sextW(a->k, a->w), w);
  if (a->w <= 64 && (a->zeros >> (a->w - 1)) & 1) return zext(a, w);
  if (a->op == Op::SExt) return sext(a->a, w);
  if (a->op == Op::Ite && a->leaves && a->leaves <= kLeafMax)
    return mapLeaves(a, [&](E t) { return sext(t, w); });
  return intern(Op::SExt, w, 0, a, nullptr, nullptr, 0);
}

E ExprMgr::ite(E c, E a, E b) {
  if (c->isConst()) return c->k ? a : b;
  if (a == b) return a;
  if (a->w != b->w) { fprintf(stderr, "ite width mismatch\n"); abort(); }
  if (E n = isNot1(c)) return ite(n, b, a);
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->k ? c : not1(c);
    if (a->isConst()) return a->k ? or1(c, b) : and1(not1(c), b);
    if (b->isConst()) return b->k ? or1(not1(c), a) : and1(c, a);
  }
  if (a->op == Op::Ite && a->a == c) a = a->b;
  if (b->op == Op::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->op == Op::Ite && b->b == a) return ite(or1(c, b->a), a, b->c);
  if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return zext(ite(c, a->a, b->a), a->w);
  return intern(Op::Ite, a->w, 0, c, a, b, 0);
}

E ExprMgr::fop(Op op, unsigned w, uint32_t aux, E a, E b) {
  if (a->isConst() && (!b || b->isConst()))
    return cst(foldOp(op, w, aux, a->w, a->k, b ? b->k : 0, 0, b ? b->w : 0), w);
  if (a->op == Op::Ite && a->leaves && a->leaves <= 300 && (!b || b->isConst()))
    return mapLeaves(a, [&](E t) { return fop(op, w, aux, t, b); });
  if (b && a->isConst() && b->op == Op::Ite && b->leaves && b->leaves <= 300)
    return mapLeaves(b, [&](E t) { return fop(op, w, aux, a, t); });
  return intern(op, w, aux, a, b, nullptr, 0);
}

u128 ExprMgr::eval(E e, const Model& m) {
  if (e->isConst()) return e->k;
  if (e->stamp == m.id && m.id) return e->val;
  u128 r;
  if (e->op == Op::Var) {
    r = e->aux < m.v.size() ? m.v[e->aux] : 0;
    r &= maskW(e->w);
  } else if (e->op == Op::Ite) {
    r = eval(e->a, m) ? eval(e->b, m) : eval(e->c, m);
  } else {
    u128 a = eval(e->a, m), b = e->b ? eval(e->b, m) : 0;
    r = foldOp(e->op, e->w, e->aux, e->a->w, a, b, 0, e->b ? e->b->w : 0);
  }
  e->stamp = m.id;
  e->val = r;
  return r;
}

static const std::vector<uint32_t> kNoVars;
const std::vector<uint32_t>& ExprMgr::varsOf(E e) {
  if (e->vars) return *e->vars;
  if (e->isConst()) { e->vars = &kNoVars; return kNoVars; }
  if (e->op == Op::Var) { e->vars = new std::vector<uint32_t>{e->aux}; return *e->vars; }
  const std::vector<uint32_t>* r = &varsOf(e->a);
  for (E s : {e->b, e->c}) if (s) {
    const std::vector<uint32_t>& t = varsOf(s);
    if (std::includes(r->begin(), r->end(), t.begin(), t.end())) continue;
    if (std::includes(t.begin(), t.end(), r->begin(), r->end())) { r = &t; continue; }
    auto* n = new std::vector<uint32_t>;
    std::set_union(r->begin(), r->end(), t.begin(), t.end(), std::back_inserter(*n));
    r = n;
  }
  e->vars = r;
  return *r;
}

static Z3_ast keep(Z3_context z, Z3_ast a) { Z3_inc_ref(z, a); return a; }

static Z3_sort fpSort(Z3_context z, unsigned w) {
  return w == 64 ? Z3_mk_fpa_sort_double(z) : Z3_mk_fpa_sort_single(z);
}
static Z3_ast asFP(Z3_context z, E e) { return Z3_mk_fpa_to_fp_bv(z, X.toBV(z, e), fpSort(z, e->w)); }

Z3_ast ExprMgr::toBool(Z3_context z, E e) {
  if (e->zb) return e->zb;
  Z3_ast r;
  switch (e->op) {
    case Op::Const: r = e->k ? Z3_mk_true(z) : Z3_mk_false(z); break;
    case Op::Eq: r = e->a->w == 1 ? Z3_mk_eq(z, toBool(z, e->a), toBool(z, e->b)) : Z3_mk_eq(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Ult: r = Z3_mk_bvult(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Ule: r = Z3_mk_bvule(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Slt: r = Z3_mk_bvslt(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Sle: r = Z3_mk_bvsle(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::And: { Z3_ast t[2] = {toBool(z, e->a), toBool(z, e->b)}; r = Z3_mk_and(z, 2, t); break; }
    case Op::Or: { Z3_ast t[2] = {toBool(z, e->a), toBool(z, e->b)}; r = Z3_mk_or(z, 2, t); break; }
    case Op::Xor:
      if (e->b->isConst() && e->b->k == 1) r = Z3_mk_not(z, toBool(z, e->a));
      else r = Z3_mk_xor(z, toBool(z, e->a), toBool(z, e->b));
      break;
    case Op::Ite: r = Z3_mk_ite(z, toBool(z, e->a), toBool(z, e->b), toBool(z, e->c)); break;
    case Op::FCmp: {
      Z3_ast a = asFP(z, e->a), b = asFP(z, e->b);
      uint32_t p = e->aux;
      Z3_ast nan2[2] = {Z3_mk_fpa_is_nan(z, a), Z3_mk_fpa_is_nan(z, b)};
      Z3_ast uno = Z3_mk_or(z, 2, nan2);
      Z3_ast t[4]; int n = 0;
      if (p & 1) t[n++] = Z3_mk_fpa_eq(z, a, b);
      if (p & 2) t[n++] = Z3_mk_fpa_gt(z, a, b);
      if (p & 4) t[n++] = Z3_mk_fpa_lt(z, a, b);
      if (p & 8) t[n++] = uno;
      r = n == 0 ? Z3_mk_false(z) : Z3_mk_or(z, n, t);
      break;
    }
    default: {
      Z3_sort s = Z3_mk_bv_sort(z, 1);
      r = Z3_mk_eq(z, toBV(z, e), Z3_mk_unsigned_int64(z, 1, s));
    }
  }
  return e->zb = keep(z, r);
}

Z3_ast ExprMgr::toBV(Z3_context z, E e) {
  if (e->z) return e->z;
  Z3_ast r;
  Z3_sort s = Z3_mk_bv_sort(z, e->w);
  if (e->w == 1 && (isBoolOp(e->op) || e->op == Op::And || e->op == Op::Or || e->op == Op::Xor)) {
    r = Z3_mk_ite(z, toBool(z, e), Z3_mk_unsigned_int64(z, 1, s), Z3_mk_unsigned_int64(z, 0, s));
    return e->z = keep(z, r);
  }
  switch (e->op) {
    case Op::Const:
      if (e->w <= 64) r = Z3_mk_unsigned_int64(z, (uint64_t)e->k, s);
      else {
        Z3_sort s64 = Z3_mk_bv_sort(z, 64), sh = Z3_mk_bv_sort(z, e->w - 64);
        r = Z3_mk_concat(z, Z3_mk_unsigned_int64(z, (uint64_t)(e->k >> 64), sh), Z3_mk_unsigned_int64(z, (uint64_t)e->k, s64));
      }
      break;
    case Op::Var: {
      std::string n = "v" + std::to_string(e->aux) + "_" + varNames[e->aux];
      for (char& c : n) if (!isalnum((unsigned char)c) && c != '_') c = '_';
      r = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), s);
      break;
    }
    case Op::Add: r = Z3_mk_bvadd(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Sub: r = Z3_mk_bvsub(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Mul: r = Z3_mk_bvmul(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::URem: r = Z3_mk_bvurem(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::SRem: r = Z3_mk_bvsrem(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::And: r = Z3_mk_bvand(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Or: r = Z3_mk_bvor(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Xor: r = Z3_mk_bvxor(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Shl: r = Z3_mk_bvshl(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::LShr: r = Z3_mk_bvlshr(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::AShr: r = Z3_mk_bvashr(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Concat: r = Z3_mk_concat(z, toBV(z, e->a), toBV(z, e->b)); break;
    case Op::Extract: r = Z3_mk_extract(z, e->aux + e->w - 1, e->aux, toBV(z, e->a)); break;
    case Op::ZExt: r = Z3_mk_zero_ext(z, e->w - e->a->w, toBV(z, e->a)); break;
    case Op::SExt: r = Z3_mk_sign_ext(z, e->w - e->a->w, toBV(z, e->a)); break;
    case Op::Ite: r = Z3_mk_ite(z, toBool(z, e->a), toBV(z, e->b), toBV(z, e->c)); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: {
      Z3_ast rm = Z3_mk_fpa_rne(z), a = asFP(z, e->a), b = asFP(z, e->b), t;
      t = e->op == Op::FAdd ? Z3_mk_fpa_add(z, rm, a, b) : e->op == Op::FSub ? Z3_mk_fpa_sub(z, rm, a, b)
        : e->op == Op::FMul ? Z3_mk_fpa_mul(z, rm, a, b) : Z3_mk_fpa_div(z, rm, a, b);
      r = Z3_mk_fpa_to_ieee_bv(z, t);
      break;
    }
    case Op::FToSI: r = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), asFP(z, e->a), e->w); break;
    case Op::FToUI: r = Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), asFP(z, e->a), e->w); break;
    case Op::SIToF: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_signed(z, Z3_mk_fpa_rne(z), toBV(z, e->a), fpSort(z, e->w))); break;
    case Op::UIToF: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_unsigned(z, Z3_mk_fpa_rne(z), toBV(z, e->a), fpSort(z, e->w))); break;
    case Op::FToF: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_float(z, Z3_mk_fpa_rne(z), asFP(z, e->a), fpSort(z, e->w))); break;
    case Op::FSqrt: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sqrt(z, Z3_mk_fpa_rne(z), asFP(z, e->a))); break;
    case Op::FRound: {
      Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(z) : e->aux == 1 ? Z3_mk_fpa_rtp(z) : e->aux == 2 ? Z3_mk_fpa_rtz(z)
        : e->aux == 3 ? Z3_mk_fpa_rna(z) : Z3_mk_fpa_rne(z);
      r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_round_to_integral(z, rm, asFP(z, e->a)));
      break;
    }
    default: fprintf(stderr, "toBV: unsupported op %d\n", (int)e->op); abort();
  }
  return e->z = keep(z, r);
}

std::string exprStr(E e, int d) {
  static const char* N[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<",">>","ashr","==","u<","u<=","s<","s<=","cat","ext","zext","sext","ite","f+","f-","f*","f/","fcmp","ftosi","ftoui","sitof","uitof","ftof","fsqrt","fround","frem","ffun"};
  if (e->isConst()) {
    char b[40];
    if (e->w <= 64) snprintf(b, 40, "%llu", (unsigned long long)e->k);
    else snprintf(b, 40, "0x%llx%016llx", (unsigned long long)(e->k >> 64), (unsigned long long)e->k);
    return b;
  }
  if (e->op == Op::Var) return X.varNames[e->aux];
  if (d == 0) return "...";
  std::string s = std::string("(") + N[(int)e->op];
  if (e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  for (E t : {e->a, e->b, e->c}) if (t) s += " " + exprStr(t, d - 1);
  return s + ")";
}
