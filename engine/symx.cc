// symx: path-based symbolic execution of LLVM bitcode over a flat memory,
// deciding branches, assertions and memory accesses with Z3.
#include "symx.h"
#include <chrono>
#include <cstdarg>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/resource.h>
#include <pthread.h>
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
typedef std::chrono::steady_clock Clock;
static double secs(Clock::time_point a, Clock::time_point b) { return std::chrono::duration<double>(b - a).count(); }

// ---------------------------------------------------------------- options
static struct {
  std::string file, out = "result.json", entry = "harness_main", casesDir;
  double maxTime = 600;
  unsigned queryTimeout = 30000;
  uint64_t maxPaths = 0;
  int maxPreempt = 2;
  unsigned ptrEnum = 24;
  uint64_t rangeMax = 1 << 16;
  bool keepGoing = false, trace = false, verbose = false, forkPtr = false, forkLeaves = false;
  unsigned samples = 0;
  std::vector<int64_t> params;
  std::string smtDir, instrumentOut;
  unsigned smtMax = 0;
  uint64_t maxInstPerPath = 400000000ull;
  uint64_t memLimitMB = 6000;
  unsigned loopWarn = 0;
} opt;

static Module* M;
static const DataLayout* DL;
static Clock::time_point t0;

// ---------------------------------------------------------------- stats
static struct {
  uint64_t insts = 0, forks = 0, paths = 0, killed = 0, queries = 0, sat = 0, unsat = 0, unknown = 0;
  uint64_t slowQueries = 0, cacheHits = 0, modelHits = 0, asserts = 0, assertQueries = 0, symBranches = 0, merges = 0, memOps = 0, symMem = 0;
  uint64_t crashExpected = 0, schedPoints = 0;
  double solver = 0;
  bool timeout = false;
  std::map<std::string, uint64_t> reach;
  std::vector<std::string> incomplete;
} S;

static void incomplete(const std::string& why) {
  for (auto& s : S.incomplete) if (s == why) return;
  S.incomplete.push_back(why);
  fprintf(stderr, "INCOMPLETE: %s\n", why.c_str());
}

struct PathEnd {};            // current path is finished
struct Violation { std::string kind, msg; };

// ---------------------------------------------------------------- solver
static Z3_context Z;
static uint64_t modelCounter = 1;
static std::vector<Model> recent;
static size_t recentPos = 0;

struct QKeyHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, int, QKeyHash> qcache;

static void z3err(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}

static unsigned smtDumped = 0;
static void (*whereHook)() = nullptr;
struct State;
static State* curState = nullptr;
// 1 sat, 0 unsat, -1 unknown.  Fills assignments for variables of the query.
static int solve(const std::vector<E>& cs, std::vector<std::pair<uint32_t, uint64_t>>* asg) {
  auto b = Clock::now();
  // A propositional back end with a short limit first, then Z3's default
  // bit-vector tactics.
  static const char* kind = getenv("SYMX_SOLVER");
  bool fp = false;
  for (E c : cs) if (X.usesFP(c)) { fp = true; break; }
  bool fast = !fp && !(kind && !strcmp(kind, "default"));
  auto mk = [&](bool quick) {
    Z3_solver n = quick ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, kind ? kind : "QF_FD")) : Z3_mk_solver(Z);
    Z3_solver_inc_ref(Z, n);
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), quick ? std::min<unsigned>(opt.queryTimeout, 4000) : opt.queryTimeout);
    Z3_solver_set_params(Z, n, p);
    Z3_params_dec_ref(Z, p);
    return n;
  };
  Z3_solver s = mk(fast);
  std::set<uint32_t> vars;
  for (E c : cs) {
    Z3_solver_assert(Z, s, X.toBool(Z, c));
    for (uint32_t v : X.varsOf(c)) vars.insert(v);
  }
  S.queries++;
  Z3_lbool r = Z3_solver_check(Z, s);
  if (fast && r == Z3_L_UNDEF) {
    S.slowQueries++;
    Z3_solver_dec_ref(Z, s);
    s = mk(false);
    for (E c : cs) Z3_solver_assert(Z, s, X.toBool(Z, c));
    r = Z3_solver_check(Z, s);
  }
  double dt = secs(b, Clock::now());
  if (opt.verbose && dt > 1.0) fprintf(stderr, "slow query %.1fs -> %d (%zu constraints)\n", dt, (int)r, cs.size());
  if (opt.verbose && dt > 1.0 && whereHook) whereHook();
  if (!opt.smtDir.empty() && smtDumped < opt.smtMax && (r != Z3_L_UNDEF || dt > 1.0) && (S.queries % 7 == 1 || r == Z3_L_FALSE || dt > 1.0)) {
    std::ofstream f(opt.smtDir + "/q" + std::to_string(smtDumped++) + (r == Z3_L_TRUE ? ".sat" : ".unsat") + ".smt2");
    f << "(set-logic ALL)\n" << Z3_solver_to_string(Z, s) << "\n(check-sat)\n";
  }
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) {
    S.sat++;
    if (asg) {
      Z3_model m = Z3_solver_get_model(Z, s);
      Z3_model_inc_ref(Z, m);
      for (uint32_t v : vars) {
        Z3_ast out;
        uint64_t val = 0;
        if (Z3_model_eval(Z, m, X.toBV(Z, X.varE[v]), true, &out)) {
          Z3_inc_ref(Z, out);
          Z3_get_numeral_uint64(Z, out, &val);
          Z3_dec_ref(Z, out);
        }
        asg->push_back({v, val});
      }
      Z3_model_dec_ref(Z, m);
    }
  } else if (res == 0) S.unsat++;
  else { S.unknown++; incomplete("solver returned unknown (timeout) on a query"); }
  Z3_solver_dec_ref(Z, s);
  S.solver += secs(b, Clock::now());
  return res;
}

static void sliceFor(const std::vector<E>& pc, E c, std::vector<E>& out) {
  static std::vector<uint32_t> mark;
  static uint32_t gen = 0;
  gen++;
  if (mark.size() < X.varNames.size() + 1) mark.resize(X.varNames.size() * 2 + 64, 0);
  for (uint32_t v : X.varsOf(c)) mark[v] = gen;
  std::vector<char> in(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = pc.size(); i-- > 0;) {
      if (in[i]) continue;
      const auto& vs = X.varsOf(pc[i]);
      bool hit = false;
      for (uint32_t v : vs) if (mark[v] == gen) { hit = true; break; }
      if (!hit) continue;
      in[i] = 1;
      for (uint32_t v : vs) if (mark[v] != gen) { mark[v] = gen; ch = true; }
    }
  }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
  out.push_back(c);
}

static bool holds(State& s, E c) { return X.eval(c, s.model) != 0; }

static void checkBudget();

// Can c be true together with the path condition?  On success and if m is
// given, *m satisfies the whole path condition and c.
static int mayBeTrue(State& s, E c, Model* m) {
  curState = &s;
  if (c->isConst()) { if (c->k && m) *m = s.model; return c->k ? 1 : 0; }
  if (holds(s, c)) { if (m) *m = s.model; return 1; }
  checkBudget();
  std::vector<E> cs;
  sliceFor(s.pc, c, cs);
  std::vector<uint32_t> key;
  for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end() && (it->second == 0 || !m)) { S.cacheHits++; return it->second; }
  for (auto& rm : recent) {
    bool ok = true;
    for (size_t i = cs.size(); i-- > 0;) if (!X.eval(cs[i], rm)) { ok = false; break; }
    if (ok) {
      S.modelHits++;
      if (m) {
        *m = s.model;
        m->id = ++modelCounter;
        for (E e : cs) for (uint32_t v : X.varsOf(e)) {
          if (m->v.size() <= v) m->v.resize(v + 1, 0);
          m->v[v] = v < rm.v.size() ? rm.v[v] : 0;
        }
      }
      return 1;
    }
  }
  std::vector<std::pair<uint32_t, uint64_t>> asg;
  int r = solve(cs, &asg);
  if (r >= 0) qcache[key] = r;
  if (r == 1) {
    Model nm = s.model;
    nm.id = ++modelCounter;
    for (auto& a : asg) {
      if (nm.v.size() <= a.first) nm.v.resize(a.first + 1, 0);
      nm.v[a.first] = a.second;
    }
    for (E e : cs) if (!X.eval(e, nm)) {
      incomplete("model does not satisfy its query: " + exprStr(e, 3));
      return -1;
    }
    if (recent.size() < 40) recent.push_back(nm);
    else { recent[recentPos++ % 40] = nm; }
    if (m) *m = nm;
  }
  return r;
}

// ---- ranges implied by the path condition
typedef std::pair<uint64_t, uint64_t> Rng;
static uint64_t ivCounter = 0;
static std::unordered_map<E, Rng> rngMemo;
static std::unordered_map<E, E> simpMemo;
static uint64_t rngVer = ~0ull, simpVer = ~0ull;
static Rng rangeRec(State& s, E e, int depth) {
  if (e->isConst()) return {(uint64_t)e->k, (uint64_t)e->k};
  Rng r{e->lo, e->hi};
  if (depth > 40) return r;
  auto m = rngMemo.find(e);
  if (m != rngMemo.end()) return m->second;
  auto meet = [&](uint64_t l, uint64_t h) { if (l > r.first) r.first = l; if (h < r.second) r.second = h; };
  auto it = s.iv.find(e);
  if (it != s.iv.end()) meet(it->second.first, it->second.second);
  uint64_t mask = mask64(e->w);
  switch (e->op) {
    case Op::ZExt: if (e->a->w <= 64) { Rng a = rangeRec(s, e->a, depth + 1); meet(a.first, a.second); } break;
    case Op::Extract: if (e->a->w <= 64) {
      Rng a = rangeRec(s, e->a, depth + 1);
      uint64_t l = a.first >> e->aux, h = a.second >> e->aux;
      if (h <= mask) meet(l, h);
      else if (l >> e->w == h >> e->w && e->w < 64) meet(l & mask, h & mask);
      break;
    } break;
    case Op::Add: {
      Rng a = rangeRec(s, e->a, depth + 1), b = rangeRec(s, e->b, depth + 1);
      u128 l = (u128)a.first + b.first, h = (u128)a.second + b.second;
      if ((l >> e->w) == (h >> e->w)) meet((uint64_t)l & mask, (uint64_t)h & mask);
      break;
    }
    case Op::Sub: {
      Rng a = rangeRec(s, e->a, depth + 1), b = rangeRec(s, e->b, depth + 1);
      if (a.first >= b.second) meet(a.first - b.second, a.second - b.first);
      break;
    }
    case Op::LShr: if (e->b->isConst() && e->b->k < 64) { Rng a = rangeRec(s, e->a, depth + 1); meet(a.first >> (unsigned)e->b->k, a.second >> (unsigned)e->b->k); } break;
    case Op::Shl: if (e->b->isConst() && e->b->k < 64) {
      Rng a = rangeRec(s, e->a, depth + 1);
      unsigned k = (unsigned)e->b->k;
      if (((u128)a.second << k) <= mask) meet(a.first << k, a.second << k);
    } break;
    case Op::Concat: if (e->w <= 64) {
      Rng a = rangeRec(s, e->a, depth + 1), b = rangeRec(s, e->b, depth + 1);
      unsigned k = e->b->w;
      if (a.first == a.second) meet((a.first << k) | b.first, (a.first << k) | b.second);
      else meet(a.first << k, (a.second << k) | mask64(k));
    } break;
    case Op::Mul: {
      Rng a = rangeRec(s, e->a, depth + 1), b = rangeRec(s, e->b, depth + 1);
      if ((u128)a.second * b.second <= mask) meet(a.first * b.first, a.second * b.second);
      break;
    }
    case Op::UDiv: if (e->b->isConst() && e->b->k) { Rng a = rangeRec(s, e->a, depth + 1); meet(a.first / (uint64_t)e->b->k, a.second / (uint64_t)e->b->k); } break;
    case Op::Ite: {
      Rng a = rangeRec(s, e->b, depth + 1), b = rangeRec(s, e->c, depth + 1);
      meet(std::min(a.first, b.first), std::max(a.second, b.second));
      break;
    }
    default: break;
  }
  if (r.first > r.second) r = {e->lo, e->hi};   // an infeasible side; say nothing
  rngMemo.emplace(e, r);
  return r;
}
static Rng rangeOf(State& s, E e) {
  if (rngVer != s.ivVer) { rngMemo.clear(); rngVer = s.ivVer; }
  return rangeRec(s, e, 0);
}
// 1 true, 0 false, -1 unknown
static int decideRange(State& s, E c) {
  if (c->isConst()) return c->k != 0;
  bool neg = false;
  if (E n = isNot1(c)) { c = n; neg = true; }
  int r = -1;
  if ((c->op == Op::Ult || c->op == Op::Ule || c->op == Op::Eq) && c->a->w <= 64) {
    Rng a = rangeOf(s, c->a), b = rangeOf(s, c->b);
    if (c->op == Op::Ult) r = a.second < b.first ? 1 : a.first >= b.second ? 0 : -1;
    else if (c->op == Op::Ule) r = a.second <= b.first ? 1 : a.first > b.second ? 0 : -1;
    else r = a.second < b.first || b.second < a.first ? 0 : a.first == a.second && b.first == b.second && a.first == b.first ? 1 : -1;
  } else if ((c->op == Op::And || c->op == Op::Or) && c->w == 1) {
    int x = decideRange(s, c->a);
    if (c->op == Op::And && x == 0) r = 0;
    else if (c->op == Op::Or && x == 1) r = 1;
    else {
      int y = decideRange(s, c->b);
      if (c->op == Op::And) r = y == 0 ? 0 : x == 1 && y == 1 ? 1 : -1;
      else r = y == 1 ? 1 : x == 0 && y == 0 ? 0 : -1;
    }
  } else if (c->w == 1 && c->op == Op::Ite) {
    int x = decideRange(s, c->a);
    if (x >= 0) r = decideRange(s, x ? c->b : c->c);
  } else if (c->w == 1) {
    auto it = s.iv.find(c);
    if (it != s.iv.end() && it->second.first == it->second.second) r = (int)it->second.first;
  }
  return r < 0 ? r : neg ? !r : r;
}
static E simpRec(State& s, E e, int& budget) {
  if (e->isConst()) return e;
  auto it = simpMemo.find(e);
  if (it != simpMemo.end()) return it->second;
  E r = e;
  if (--budget > 0) {
    if (e->w <= 64) {
      Rng g = rangeOf(s, e);
      if (g.first == g.second) { r = X.cst(g.first, e->w); simpMemo.emplace(e, r); return r; }
    }
    switch (e->op) {
      case Op::Ite: {
        int d = decideRange(s, e->a);
        if (d >= 0) r = simpRec(s, d ? e->b : e->c, budget);
        else {
          E x = simpRec(s, e->b, budget), y = simpRec(s, e->c, budget);
          if (x != e->b || y != e->c) r = X.ite(e->a, x, y);
        }
        break;
      }
      case Op::Eq: case Op::Ult: case Op::Ule: {
        int d = decideRange(s, e);
        if (d >= 0) { r = X.cst(d, 1); break; }
        E x = simpRec(s, e->a, budget), y = simpRec(s, e->b, budget);
        if (x != e->a || y != e->b) r = X.cmp(e->op, x, y);
        break;
      }
      case Op::Slt: case Op::Sle: {
        E x = simpRec(s, e->a, budget), y = simpRec(s, e->b, budget);
        if (x != e->a || y != e->b) r = X.cmp(e->op, x, y);
        break;
      }
      case Op::Add: case Op::Sub: case Op::Mul: case Op::And: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr: case Op::AShr:
      case Op::UDiv: case Op::URem: {
        E x = simpRec(s, e->a, budget), y = simpRec(s, e->b, budget);
        if (x != e->a || y != e->b) r = X.bin(e->op, x, y);
        break;
      }
      case Op::ZExt: { E x = simpRec(s, e->a, budget); if (x != e->a) r = X.zext(x, e->w); break; }
      case Op::Extract: { E x = simpRec(s, e->a, budget); if (x != e->a) r = X.extract(x, e->aux, e->w); break; }
      case Op::Concat: { E x = simpRec(s, e->a, budget), y = simpRec(s, e->b, budget); if (x != e->a || y != e->b) r = X.concat(x, y); break; }
      default: break;
    }
  }
  simpMemo.emplace(e, r);
  return r;
}
static E simplify(State& s, E e) {
  if (s.iv.empty() || e->isConst()) return e;
  if (simpVer != s.ivVer) { simpMemo.clear(); simpVer = s.ivVer; }
  int budget = 4000;
  return simpRec(s, e, budget);
}
static void learn(State& s, E e, uint64_t lo, uint64_t hi) {
  for (int i = 0; i < 20; i++) {
    if (e->isConst() || e->w > 64) return;
    Rng r = rangeOf(s, e);
    if (lo < r.first) lo = r.first;
    if (hi > r.second) hi = r.second;
    if (lo > hi || (lo == r.first && hi == r.second)) return;
    s.iv[e] = {lo, hi};
    s.ivVer = ++ivCounter;
    switch (e->op) {
      case Op::ZExt: e = e->a; continue;
      case Op::Extract: {
        if (e->a->w > 64) return;
        Rng a = rangeOf(s, e->a);
        if (e->aux + e->w < e->a->w && (a.second >> e->aux) >> e->w) return;
        hi = e->aux ? (hi << e->aux) | mask64(e->aux) : hi;
        lo = lo << e->aux;
        e = e->a; continue;
      }
      case Op::LShr: {
        if (!e->b->isConst() || e->b->k >= 64) return;
        unsigned k = (unsigned)e->b->k;
        lo <<= k; hi = (hi << k) | mask64(k);
        e = e->a; continue;
      }
      case Op::Shl: {
        if (!e->b->isConst() || e->b->k >= 64) return;
        unsigned k = (unsigned)e->b->k;
        Rng a = rangeOf(s, e->a);
        if (((u128)a.second << k) > mask64(e->w)) return;
        lo = (lo + mask64(k)) >> k; hi >>= k;
        e = e->a; continue;
      }
      case Op::Add: {
        if (!e->b->isConst()) return;
        uint64_t k = (uint64_t)e->b->k, m = mask64(e->w);
        Rng a = rangeOf(s, e->a);
        u128 l = (u128)a.first + k, h = (u128)a.second + k;
        if ((l >> e->w) != (h >> e->w)) return;
        lo = (lo - k) & m; hi = (hi - k) & m;
        if (lo > hi) return;
        e = e->a; continue;
      }
      case Op::Concat: {
        unsigned k = e->b->w;
        lo >>= k; hi >>= k;
        e = e->a; continue;
      }
      default: return;
    }
  }
}
static void learnFact(State& s, E c, bool pos) {
  if (E n = isNot1(c)) { learnFact(s, n, !pos); return; }
  if (c->op == Op::And && pos) { learnFact(s, c->a, true); learnFact(s, c->b, true); return; }
  if (c->op == Op::Or && !pos) { learnFact(s, c->a, false); learnFact(s, c->b, false); return; }
  if ((c->op == Op::Ult || c->op == Op::Ule) && c->a->w <= 64) {
    E a = c->a, b = c->b;
    bool strict = c->op == Op::Ult;
    if (!pos) { std::swap(a, b); strict = !strict; }        // a < b or a <= b now
    Rng ra = rangeOf(s, a), rb = rangeOf(s, b);
    uint64_t m = mask64(a->w);
    if (!strict || rb.second > 0) learn(s, a, 0, rb.second - (strict ? 1 : 0));
    if (!strict || ra.first < m) learn(s, b, ra.first + (strict ? 1 : 0), m);
    return;
  }
  if (c->op == Op::Eq && c->a->w <= 64) {
    if (pos) {
      Rng ra = rangeOf(s, c->a), rb = rangeOf(s, c->b);
      learn(s, c->a, rb.first, rb.second);
      learn(s, c->b, ra.first, ra.second);
    } else if (c->b->isConst()) {
      Rng ra = rangeOf(s, c->a);
      uint64_t k = (uint64_t)c->b->k;
      if (ra.first == k && k < ra.second) learn(s, c->a, k + 1, ra.second);
      else if (ra.second == k && k > ra.first) learn(s, c->a, ra.first, k - 1);
    }
    return;
  }
  if (c->w == 1) { s.iv[c] = {pos, pos}; s.ivVer = ++ivCounter; }
}

static void addPC(State& s, E c) {
  if (c->isConst()) return;
  if (c->op == Op::And && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  s.pc.push_back(c);
  learnFact(s, c, true);
  if (c->op == Op::Eq && c->a->op == Op::Var && c->b->isConst()) s.fixed.insert(c->a->aux);
  else if (c->op == Op::Var && c->w == 1) s.fixed.insert(c->aux);
  else if (E n = isNot1(c)) { if (n->op == Op::Var) s.fixed.insert(n->aux); }
}

// Evaluates expressions over fixed variables to constants and applies the
// ranges the path condition implies.
static E fixE(State& s, E e) {
  if (e->isConst()) return e;
  if (!s.fixed.empty()) {
    const auto& vs = X.varsOf(e);
    bool all = vs.size() <= s.fixed.size();
    for (uint32_t v : vs) { if (!all) break; all = s.fixed.count(v); }
    if (all) return X.cst(X.eval(e, s.model), e->w);
  }
  return simplify(s, e);
}

// ---------------------------------------------------------------- layout
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, FuncInfo*> funcAt;
static std::unordered_map<const Function*, FuncInfo*> funcOf;
static std::vector<std::pair<uint64_t, const GlobalVariable*>> globalsByAddr;
static const uint64_t kFuncBase = 0x10000000, kGlobalBase = 0x20000000, kStackBase = 0x7ffe00000000ull,
                      kStackSize = 1 << 22, kHeapBase = 0x700000000000ull;

static void leavesOf(Type* t, uint64_t off, std::vector<LeafT>& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + i * sz, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t bits = DL->getTypeSizeInBits(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), off + i * ((bits + 7) / 8), out);
  } else if (t->isVoidTy()) {
  } else {
    out.push_back({off, (uint16_t)DL->getTypeSizeInBits(t).getFixedValue(), t->isFloatingPointTy()});
  }
}
static unsigned flat(Type* t) { std::vector<LeafT> l; leavesOf(t, 0, l); return l.size(); }

static std::vector<Val> constVals(const Constant* c);

static Val constScalar(const Constant* c) {
  Val v;
  unsigned w = DL->getTypeSizeInBits(c->getType()).getFixedValue();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (w <= 64) v.c = ci->getZExtValue();
    else if (w <= 128) {
      const APInt& a = ci->getValue();
      v.e = X.cst(((u128)a.extractBitsAsZExtValue(w - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), w);
    } else { incomplete("integer constant wider than 128 bits"); }
    return v;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt a = cf->getValueAPF().bitcastToAPInt();
    if (w <= 64) v.c = a.getZExtValue();
    else v.e = X.cst(0, w);
    return v;
  }
  if (isa<ConstantPointerNull>(c)) return v;
  if (isa<UndefValue>(c) || isa<PoisonValue>(c)) { if (w > 64) v.e = X.cst(0, w); return v; }
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constScalar(ga->getAliasee());
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) { incomplete("no address for global " + gv->getName().str()); return v; }
    v.c = it->second;
    return v;
  }
  if (isa<ConstantAggregateZero>(c)) return v;
  if (auto* be = dyn_cast<BlockAddress>(c)) { (void)be; v.c = 0xb10c0000; return v; }
  if (auto* eq = dyn_cast<DSOLocalEquivalent>(c)) return constScalar(eq->getGlobalValue());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce);
        Val b = constScalar(cast<Constant>(g->getPointerOperand()));
        int64_t off = 0;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          int64_t idx = cast<ConstantInt>(gi.getOperand())->getSExtValue();
          if (StructType* st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(idx);
          else off += idx * (int64_t)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
        }
        v.c = b.c + off;
        return v;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: {
        Val b = constScalar(ce->getOperand(0));
        v.c = b.c & mask64(w);
        return v;
      }
      case Instruction::Add: v.c = (constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c) & mask64(w); return v;
      case Instruction::Sub: v.c = (constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c) & mask64(w); return v;
      case Instruction::Mul: v.c = (constScalar(ce->getOperand(0)).c * constScalar(ce->getOperand(1)).c) & mask64(w); return v;
      case Instruction::Xor: v.c = (constScalar(ce->getOperand(0)).c ^ constScalar(ce->getOperand(1)).c) & mask64(w); return v;
      case Instruction::Shl: v.c = (constScalar(ce->getOperand(0)).c << constScalar(ce->getOperand(1)).c) & mask64(w); return v;
      case Instruction::ICmp: {
        uint64_t a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c;
        switch (cast<ConstantExpr>(ce)->getPredicate()) {
          case CmpInst::ICMP_EQ: v.c = a == b; break;
          case CmpInst::ICMP_NE: v.c = a != b; break;
          case CmpInst::ICMP_ULT: v.c = a < b; break;
          case CmpInst::ICMP_UGT: v.c = a > b; break;
          case CmpInst::ICMP_ULE: v.c = a <= b; break;
          case CmpInst::ICMP_UGE: v.c = a >= b; break;
          default: incomplete("constant icmp");
        }
        return v;
      }
      default: break;
    }
    incomplete(std::string("constant expression ") + ce->getOpcodeName());
    return v;
  }
  std::string t; raw_string_ostream os(t); c->print(os);
  incomplete("constant: " + t.substr(0, 100));
  return v;
}

static void constValsRec(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
      std::vector<LeafT> l; leavesOf(t, 0, l);
      for (auto& x : l) { Val v; if (x.w > 64) v.e = X.cst(0, x.w); out.push_back(v); }
      return;
    }
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) constValsRec(c->getAggregateElement(i), out);
    return;
  }
  out.push_back(constScalar(c));
}

static void storeRaw(Memory& m, uint64_t a, unsigned w, Val v) {
  unsigned n = (w + 7) / 8;
  if (!v.e && n <= 8) { m.storeC(a, n, v.c); return; }
  E e = v.e ? v.e : X.cst(v.c, w);
  if (e->w != n * 8) e = X.zext(e, n * 8);
  m.storeE(a, n, e);
}

static void initGlobal(Memory& m, uint64_t a, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;  // zero pages
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef d = cd->getRawDataValues();
    for (size_t i = 0; i < d.size(); i++) m.storeC(a + i, 1, (uint8_t)d[i]);
    return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(m, a + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) initGlobal(m, a + i * sz, c->getAggregateElement(i));
    return;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t sz = (DL->getTypeSizeInBits(vt->getElementType()) + 7) / 8;
    for (unsigned i = 0; i < vt->getNumElements(); i++) initGlobal(m, a + i * sz, c->getAggregateElement(i));
    return;
  }
  storeRaw(m, a, DL->getTypeSizeInBits(t).getFixedValue(), constScalar(c));
}

// ---------------------------------------------------------------- decoding
#include "builtins.inc"

static void decode(FuncInfo* fi) {
  fi->decoded = true;
  const Function& F = *fi->F;
  std::unordered_map<const Value*, int> slot;
  std::unordered_map<const BasicBlock*, uint32_t> bbStart;
  uint32_t ns = 0;
  for (auto& A : F.args()) {
    slot[&A] = ns;
    std::vector<LeafT> l; leavesOf(A.getType(), 0, l);
    for (auto& x : l) { fi->argSlots.push_back(ns++); fi->argW.push_back(x.w); }
  }
  fi->nFixed = fi->argSlots.size();
  for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += flat(I.getType()); }
  std::unordered_map<const Constant*, int> cslot;
  auto opnd = [&](const Value* v) -> int {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return 0;
    const Constant* c = dyn_cast<Constant>(v);
    if (!c) { incomplete("operand"); return 0; }
    auto jt = cslot.find(c);
    if (jt != cslot.end()) return jt->second;
    int s = -1 - (int)fi->consts.size();
    constValsRec(c, fi->consts);
    cslot[c] = s;
    return s;
  };
  auto at = [](int s, unsigned i) { return s >= 0 ? s + (int)i : s - (int)i; };
  struct Fix { uint32_t edge; const BasicBlock *from, *to; };
  std::vector<Fix> fixes;
  auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) -> uint32_t {
    uint32_t id = fi->edges.size();
    fi->edges.push_back({});
    fixes.push_back({id, from, to});
    return id;
  };
  auto W = [&](Type* t) -> uint16_t { return DL->getTypeSizeInBits(t->getScalarType()).getFixedValue(); };
  auto N = [&](Type* t) -> uint32_t { if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 1; };
  for (auto& B : F) {
    bbStart[&B] = fi->insts.size();
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      Inst x;
      x.k = K_UNSUPPORTED;
      x.I = &I;
      if (!I.getType()->isVoidTy()) x.dst = slot[&I];
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
        x.k = K_BIN; x.sub = bo->getOpcode(); x.w = W(I.getType()); x.n = N(I.getType());
        x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1));
      } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
        x.k = K_ICMP; x.sub = ic->getPredicate(); x.w = W(I.getOperand(0)->getType()); x.n = N(I.getType());
        x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1));
      } else if (auto* fc = dyn_cast<FCmpInst>(&I)) {
        x.k = K_FCMP; x.sub = fc->getPredicate(); x.w = W(I.getOperand(0)->getType()); x.n = N(I.getType());
        x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1));
      } else if (I.getOpcode() == Instruction::FNeg) {
        x.k = K_FNEG; x.w = W(I.getType()); x.n = N(I.getType()); x.a = opnd(I.getOperand(0));
      } else if (isa<BitCastInst>(I)) {
        Type *s = I.getOperand(0)->getType(), *d = I.getType();
        x.a = opnd(I.getOperand(0));
        if (flat(s) == flat(d)) { x.k = K_COPY; x.n = flat(d); fi->copies.push_back({}); x.aux = fi->copies.size() - 1; for (unsigned i = 0; i < x.n; i++) fi->copies.back().push_back(at(x.a, i)); }
        else { x.k = K_BITCAST; x.n = N(d); x.w = W(d); x.imm = N(s); x.w2 = W(s); }
      } else if (auto* ci = dyn_cast<CastInst>(&I)) {
        x.k = K_CAST; x.sub = ci->getOpcode(); x.w = W(I.getType()); x.w2 = W(I.getOperand(0)->getType()); x.n = N(I.getType());
        x.a = opnd(I.getOperand(0));
      } else if (auto* li = dyn_cast<LoadInst>(&I)) {
        x.k = K_LOAD; x.a = opnd(li->getPointerOperand());
        fi->leafs.push_back({}); leavesOf(I.getType(), 0, fi->leafs.back());
        x.aux = fi->leafs.size() - 1; x.atomic = li->isAtomic();
        x.n = fi->leafs.back().size();
        x.imm = DL->getTypeStoreSize(I.getType());
        if (x.n == 1) x.w = fi->leafs.back()[0].w;
      } else if (auto* si = dyn_cast<StoreInst>(&I)) {
        x.k = K_STORE; x.a = opnd(si->getPointerOperand()); x.b = opnd(si->getValueOperand());
        fi->leafs.push_back({}); leavesOf(si->getValueOperand()->getType(), 0, fi->leafs.back());
        x.aux = fi->leafs.size() - 1; x.atomic = si->isAtomic();
        x.n = fi->leafs.back().size();
        if (x.n == 1) x.w = fi->leafs.back()[0].w;
      } else if (auto* gi = dyn_cast<GetElementPtrInst>(&I)) {
        if (I.getType()->isVectorTy()) { fi->insts.push_back(x); continue; }
        x.k = K_GEP; x.a = opnd(gi->getPointerOperand());
        int64_t off = 0;
        std::vector<GepTerm> terms;
        for (auto it = gep_type_begin(gi), e = gep_type_end(gi); it != e; ++it) {
          Value* v = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
          else {
            int64_t sc = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
            if (auto* k = dyn_cast<ConstantInt>(v)) off += k->getSExtValue() * sc;
            else terms.push_back({opnd(v), W(v->getType()), sc});
          }
        }
        x.imm = (uint64_t)off;
        fi->geps.push_back(terms); x.aux = fi->geps.size() - 1; x.n = terms.size();
      } else if (auto* ai = dyn_cast<AllocaInst>(&I)) {
        x.k = K_ALLOCA; x.a = opnd(ai->getArraySize()); x.imm = DL->getTypeAllocSize(ai->getAllocatedType()); x.aux = ai->getAlign().value();
        x.w = W(ai->getArraySize()->getType());
      } else if (isa<SelectInst>(I)) {
        x.k = K_SELECT; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = opnd(I.getOperand(2));
        fi->leafs.push_back({}); leavesOf(I.getType(), 0, fi->leafs.back());
        x.aux = fi->leafs.size() - 1; x.n = fi->leafs.back().size();
        x.imm = I.getOperand(0)->getType()->isVectorTy();
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isUnconditional()) { x.k = K_BR; x.aux = mkEdge(&B, br->getSuccessor(0)); }
        else { x.k = K_CBR; x.a = opnd(br->getCondition()); x.aux = mkEdge(&B, br->getSuccessor(0)); mkEdge(&B, br->getSuccessor(1)); }
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        x.k = K_SWITCH; x.a = opnd(sw->getCondition()); x.w = W(sw->getCondition()->getType());
        SwitchInfo si2;
        for (auto& c : sw->cases()) si2.cases.push_back({c.getCaseValue()->getZExtValue(), mkEdge(&B, c.getCaseSuccessor())});
        si2.def = mkEdge(&B, sw->getDefaultDest());
        fi->sw.push_back(si2); x.aux = fi->sw.size() - 1;
      } else if (auto* ri = dyn_cast<ReturnInst>(&I)) {
        x.k = K_RET;
        if (ri->getReturnValue()) { x.a = opnd(ri->getReturnValue()); x.n = flat(ri->getReturnValue()->getType()); } else x.n = 0;
      } else if (isa<UnreachableInst>(I)) { x.k = K_UNREACHABLE; }
      else if (auto* cb = dyn_cast<CallBase>(&I)) {
        x.k = K_CALL;
        CallInfo ci;
        unsigned idx = 0;
        for (auto& A : cb->args()) {
          if (A->getType()->isMetadataTy()) continue;
          std::vector<LeafT> l; leavesOf(A->getType(), 0, l);
          int s = opnd(A);
          if (cb->isByValArgument(idx)) ci.byval.push_back({ci.args.size(), DL->getTypeAllocSize(cb->getParamByValType(idx))});
          for (unsigned i = 0; i < l.size(); i++) { ci.args.push_back(at(s, i)); ci.argW.push_back(l[i].w); }
          idx++;
        }
        const Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
        if (auto* ia = dyn_cast<InlineAsm>(cv)) ci.ia = ia;
        else if (auto* f = dyn_cast<Function>(cv)) {
          ci.F = f;
          ci.intrinsic = f->getIntrinsicID();
          ci.builtin = builtinOf(f->getName());
          if (!f->isDeclaration() && ci.builtin >= 0 && !builtinOverrides(ci.builtin)) ci.builtin = -1;
          if (!f->isDeclaration()) ci.fi = funcOf[f];
        } else ci.calleeSlot = opnd(cv);
        if (auto* iv = dyn_cast<InvokeInst>(&I)) ci.normalEdge = mkEdge(&B, iv->getNormalDest());
        fi->calls.push_back(ci); x.aux = fi->calls.size() - 1;
        x.n = I.getType()->isVoidTy() ? 0 : flat(I.getType());
        if (x.n == 1) { std::vector<LeafT> l; leavesOf(I.getType(), 0, l); x.w = l[0].w; }
        if (ci.intrinsic == Intrinsic::dbg_declare || ci.intrinsic == Intrinsic::dbg_value || ci.intrinsic == Intrinsic::lifetime_start || ci.intrinsic == Intrinsic::lifetime_end || ci.intrinsic == Intrinsic::dbg_label || ci.intrinsic == Intrinsic::experimental_noalias_scope_decl || ci.intrinsic == Intrinsic::prefetch || ci.intrinsic == Intrinsic::donothing || ci.intrinsic == Intrinsic::invariant_start || ci.intrinsic == Intrinsic::dbg_assign) { continue; }
      } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
        x.k = K_COPY;
        Type* t = ev->getAggregateOperand()->getType();
        unsigned off = 0;
        for (unsigned i : ev->indices()) {
          if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) off += flat(st->getElementType(j)); t = st->getElementType(i); }
          else { t = cast<ArrayType>(t)->getElementType(); off += i * flat(t); }
        }
        x.a = opnd(ev->getAggregateOperand()); x.n = flat(I.getType());
        fi->copies.push_back({}); x.aux = fi->copies.size() - 1;
        for (unsigned i = 0; i < x.n; i++) fi->copies.back().push_back(at(x.a, off + i));
      } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
        x.k = K_COPY;
        Type* t = I.getType();
        unsigned off = 0;
        for (unsigned i : iv->indices()) {
          if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) off += flat(st->getElementType(j)); t = st->getElementType(i); }
          else { t = cast<ArrayType>(t)->getElementType(); off += i * flat(t); }
        }
        int a = opnd(iv->getAggregateOperand()), b = opnd(iv->getInsertedValueOperand());
        unsigned m = flat(iv->getInsertedValueOperand()->getType());
        x.n = flat(I.getType());
        fi->copies.push_back({}); x.aux = fi->copies.size() - 1;
        for (unsigned i = 0; i < x.n; i++) fi->copies.back().push_back(i >= off && i < off + m ? at(b, i - off) : at(a, i));
      } else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
        if (auto* k = dyn_cast<ConstantInt>(ee->getIndexOperand())) {
          x.k = K_COPY; x.n = 1; fi->copies.push_back({at(opnd(ee->getVectorOperand()), k->getZExtValue())}); x.aux = fi->copies.size() - 1;
        }
      } else if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
        if (auto* k = dyn_cast<ConstantInt>(ie->getOperand(2))) {
          x.k = K_COPY; x.n = flat(I.getType()); fi->copies.push_back({}); x.aux = fi->copies.size() - 1;
          int a = opnd(ie->getOperand(0)), b = opnd(ie->getOperand(1));
          for (unsigned i = 0; i < x.n; i++) fi->copies.back().push_back(i == k->getZExtValue() ? b : at(a, i));
        }
      } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
        x.k = K_COPY; x.n = flat(I.getType()); fi->copies.push_back({}); x.aux = fi->copies.size() - 1;
        unsigned m = flat(sv->getOperand(0)->getType());
        int a = opnd(sv->getOperand(0)), b = opnd(sv->getOperand(1));
        auto& cp = fi->copies[x.aux];
        for (unsigned i = 0; i < x.n; i++) { int q = sv->getMaskValue(i); if (q < 0) q = 0; cp.push_back((unsigned)q < m ? at(a, q) : at(b, q - m)); }
      } else if (isa<FreezeInst>(I)) {
        x.k = K_COPY; x.n = flat(I.getType()); x.a = opnd(I.getOperand(0)); fi->copies.push_back({}); x.aux = fi->copies.size() - 1;
        for (unsigned i = 0; i < x.n; i++) fi->copies.back().push_back(at(x.a, i));
      } else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
        x.k = K_RMW; x.sub = rm->getOperation(); x.w = W(I.getType()); x.a = opnd(rm->getPointerOperand()); x.b = opnd(rm->getValOperand()); x.atomic = true;
      } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
        x.k = K_CMPXCHG; x.w = W(cx->getCompareOperand()->getType()); x.a = opnd(cx->getPointerOperand()); x.b = opnd(cx->getCompareOperand()); x.c = opnd(cx->getNewValOperand()); x.atomic = true;
        x.imm = cx->isWeak();
      } else if (isa<FenceInst>(I)) { x.k = K_NOP; }
      fi->insts.push_back(x);
    }
  }
  for (auto& f : fixes) {
    Edge& e = fi->edges[f.edge];
    e.target = bbStart[f.to];
    for (auto& P : f.to->phis()) {
      int d = slot[&P], s = opnd(P.getIncomingValueForBlock(f.from));
      unsigned n = flat(P.getType());
      for (unsigned i = 0; i < n; i++) if (d + (int)i != at(s, i)) e.copies.push_back({d + i, at(s, i)});
    }
  }
  fi->nSlots = ns;
}

#include "exec.inc"

int main(int argc, char** argv) {
  whereHook = printWhere;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") opt.out = nx();
    else if (a == "-entry") opt.entry = nx();
    else if (a == "-max-time") opt.maxTime = atof(nx().c_str());
    else if (a == "-query-timeout") opt.queryTimeout = atoi(nx().c_str());
    else if (a == "-max-paths") opt.maxPaths = atoll(nx().c_str());
    else if (a == "-max-preempt") opt.maxPreempt = atoi(nx().c_str());
    else if (a == "-p") opt.params.push_back(atoll(nx().c_str()));
    else if (a == "-cases") opt.casesDir = nx();
    else if (a == "-samples") opt.samples = atoi(nx().c_str());
    else if (a == "-keep-going") opt.keepGoing = true;
    else if (a == "-trace") opt.trace = true;
    else if (a == "-v") opt.verbose = true;
    else if (a == "-fork-ptr") opt.forkPtr = true;
    else if (a == "-fork-leaves") opt.forkLeaves = true;
    else if (a == "-range-max") opt.rangeMax = atoll(nx().c_str());
    else if (a == "-ptr-enum") opt.ptrEnum = atoi(nx().c_str());
    else if (a == "-smt-dir") { opt.smtDir = nx(); }
    else if (a == "-smt-max") opt.smtMax = atoi(nx().c_str());
    else if (a == "-instrument") opt.instrumentOut = nx();
    else if (a == "-mem") opt.memLimitMB = atoll(nx().c_str());
    else opt.file = a;
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 4ull << 30);
  pthread_t th;
  if (pthread_create(&th, &at, [](void*) -> void* { realMain(); return nullptr; }, nullptr)) { perror("pthread"); return 2; }
  pthread_join(th, nullptr);
  fflush(stdout);
  _exit(exitCode);
}
