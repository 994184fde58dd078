// Translates the x86-64 assembly of restartable sequences - inline assembly in
// the bitcode and the functions of an assembly file - into IR, so that the
// executor runs the instructions themselves. Around every memory access the
// translation asks the harness' model of the kernel (verif_rseq_step) whether
// the thread was interrupted there; if so it does what the kernel does: looks
// at the thread's rseq_cs field, and when the descriptor it points to covers
// the current instruction, continues at the descriptor's abort address.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
using namespace llvm;
using std::string; using std::vector; using std::map;

static LLVMContext Ctx;
static Module* M;
[[noreturn]] static void die(const string& s) { errs() << "lift: " << s << "\n"; exit(3); }
static string trim(string s) {
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r");
  return a == string::npos ? "" : s.substr(a, b - a + 1);
}
// ------------------------------------------------------------------ parsing
struct Pos { int sec, idx, line; };
struct Ins { string op; vector<string> args; string text; int line; };
struct Datum { int size; string expr; int line; };
struct Program {
  vector<vector<Ins>> code;                       // per section
  vector<string> secName;
  map<string, vector<Pos>> labels;                // numeric ones have several
  map<string, vector<Datum>> data;                // by the label before them
  map<string, vector<Datum>> before;              // data just before a label (signature)
  map<string, int> secIdx;
};
static vector<string> splitArgs(const string& s) {
  vector<string> r; string cur; int d = 0;
  for (char c : s) {
    if (c == '(') d++;
    if (c == ')') d--;
    if (c == ',' && !d) { r.push_back(trim(cur)); cur.clear(); } else cur += c;
  }
  if (!trim(cur).empty()) r.push_back(trim(cur));
  return r;
}
static Program parse(const string& text) {
  Program P;
  vector<int> stk;
  auto sec = [&](const string& n) {
    auto it = P.secIdx.find(n);
    if (it != P.secIdx.end()) return it->second;
    P.secIdx[n] = P.code.size();
    P.code.push_back({}); P.secName.push_back(n);
    return (int)P.code.size() - 1;
  };
  int cur = sec("main"), line = 0;
  map<int, string> lastLabel;
  map<int, vector<Datum>> run;
  // statements
  vector<string> st; string c; bool q = false;
  for (char ch : text) {
    if (ch == '"') q = !q;
    if ((ch == '\n' || ch == ';') && !q) { st.push_back(c); c.clear(); } else c += ch;
  }
  st.push_back(c);
  for (string s : st) {
    line++;
    s = trim(s);
    if (s.empty() || s[0] == '#') continue;
    size_t cm = s.find("//");
    if (cm != string::npos) s = trim(s.substr(0, cm));
    std::smatch m;
    static const std::regex lab("^([A-Za-z0-9_.$@]+)\\s*:(?!:)\\s*(.*)$");
    while (std::regex_match(s, m, lab)) {
      string l = m[1]; s = trim(m[2]);
      P.labels[l].push_back({cur, (int)P.code[cur].size(), line});
      lastLabel[cur] = l + "#" + std::to_string(line);
      P.before[l + "#" + std::to_string(line)] = run[cur];
      run[cur].clear();
    }
    if (s.empty()) continue;
    size_t sp = s.find_first_of(" \t");
    string op = s.substr(0, sp), rest = sp == string::npos ? "" : trim(s.substr(sp));
    if (op[0] == '.') {
      if (op == ".pushsection") { stk.push_back(cur); cur = sec(splitArgs(rest)[0]); }
      else if (op == ".popsection") { if (stk.empty()) die("popsection"); cur = stk.back(); stk.pop_back(); }
      else if (op == ".section") cur = sec(splitArgs(rest)[0]);
      else if (op == ".text") cur = sec(".text");
      else if (op == ".quad" || op == ".long" || op == ".short" || op == ".byte" || op == ".zero") {
        int sz = op == ".quad" ? 8 : op == ".long" ? 4 : op == ".short" ? 2 : op == ".byte" ? 1 : 0;
        for (auto& a : splitArgs(rest)) {
          Datum d{sz, a, line};
          if (lastLabel.count(cur)) P.data[lastLabel[cur]].push_back(d);
          run[cur].push_back(d);
        }
      }
      continue;
    }
    run[cur].clear();
    static const std::set<string> pre = {"lock", "rep", "data16", "rex64"};
    if (pre.count(op)) { sp = rest.find_first_of(" \t"); op = rest.substr(0, sp); rest = sp == string::npos ? "" : trim(rest.substr(sp)); }
    P.code[cur].push_back({op, splitArgs(rest), s, line});
  }
  return P;
}
static bool resolve(const Program& P, string l, int line, Pos& out) {
  l = trim(l);
  std::smatch m;
  static const std::regex num("^([0-9]+)([fb])$");
  if (std::regex_match(l, m, num)) {
    auto it = P.labels.find(m[1]);
    if (it == P.labels.end()) return false;
    const Pos* best = nullptr;
    for (auto& p : it->second) {
      if (m[2] == "f" && p.line > line && (!best || p.line < best->line)) best = &p;
      if (m[2] == "b" && p.line <= line && (!best || p.line > best->line)) best = &p;
    }
    if (!best) return false;
    out = *best;
    return true;
  }
  auto it = P.labels.find(l);
  if (it == P.labels.end()) return false;
  out = it->second[0];
  return true;
}
// A descriptor: version/flags, start, length, abort address.
struct Desc { string name; Pos start; int end; Pos abort; uint64_t sig = 0; bool ok = false; };
static vector<std::pair<string, Desc>> descriptors(const Program& P) {
  vector<std::pair<string, Desc>> r;
  for (auto& [key, ds] : P.data) {
    string name = key.substr(0, key.find('#'));
    if (name.rfind("__rseq_cs_", 0)) continue;
    Desc d; d.name = name;
    vector<Datum> q;
    for (auto& x : ds) if (x.size == 8) q.push_back(x);
    if (q.size() >= 3 && resolve(P, q[0].expr, q[0].line, d.start) && resolve(P, q[2].expr, q[2].line, d.abort)) {
      size_t minus = q[1].expr.find('-');
      Pos a, b;
      if (minus != string::npos && resolve(P, q[1].expr.substr(0, minus), q[1].line, a) && resolve(P, q[1].expr.substr(minus + 1), q[1].line, b) && a.sec == d.start.sec && b.sec == d.start.sec) {
        d.end = d.start.idx + (a.idx - b.idx);
        d.ok = true;
      }
      // signature in the four bytes before the abort address
      string al;
      for (auto& [l, ps] : P.labels) for (auto& p : ps) if (p.sec == d.abort.sec && p.idx == d.abort.idx) {
        auto it = P.before.find(l + "#" + std::to_string(p.line));
        if (it != P.before.end() && !it->second.empty() && it->second.back().size == 4) d.sig = strtoull(it->second.back().expr.c_str(), nullptr, 0);
      }
    }
    r.push_back({name, d});
  }
  return r;
}
static map<string, uint64_t> symIds;
static uint64_t symValue(const string& scope, const string& s) {
  string k = scope + ":" + s;
  auto it = symIds.find(k);
  if (it == symIds.end()) it = symIds.emplace(k, 0x5EC50000000ull + symIds.size() * 0x100).first;
  return it->second;
}
// TLS variables laid out by the assembly file
static GlobalVariable* tlsBlock = nullptr;
static map<string, uint64_t> tlsOff;

// ------------------------------------------------------------- translation
struct Opnd { bool isReg = false, isMem = false, isOut = false; int width = 64; Value* init = nullptr; Value* ptr = nullptr; AllocaInst* slot = nullptr; string imm; bool isLabel = false; int labelNo = 0; string flag; };
struct Xlate {
  Program& P; Function* F; vector<Opnd>& ops; string scope;
  IRBuilder<> B{Ctx};
  map<string, AllocaInst*> regs;
  AllocaInst *CF, *ZF, *SF, *OF;
  vector<vector<BasicBlock*>> bb;      // per section, one per instruction + end
  vector<std::pair<string, Desc>> ds;
  BasicBlock* entry;
  std::function<void(int)> onExit;     // emits the return with exit code k (0: fell off the end)
  bool isFunc = false;
  Type* I64 = Type::getInt64Ty(Ctx);
  Type* IN(int w) { return Type::getIntNTy(Ctx, w); }

  static const map<string, std::pair<string, std::pair<int, int>>>& regTable() {
    static map<string, std::pair<string, std::pair<int, int>>> t;   // name -> (64-bit name, (width, shift))
    if (t.empty()) {
      const char* b[4] = {"a", "b", "c", "d"};
      for (auto x : b) {
        string s = x;
        t["r" + s + "x"] = {"r" + s + "x", {64, 0}}; t["e" + s + "x"] = {"r" + s + "x", {32, 0}};
        t[s + "x"] = {"r" + s + "x", {16, 0}}; t[s + "l"] = {"r" + s + "x", {8, 0}}; t[s + "h"] = {"r" + s + "x", {8, 8}};
      }
      for (string s : {"si", "di", "bp", "sp"}) {
        t["r" + s] = {"r" + s, {64, 0}}; t["e" + s] = {"r" + s, {32, 0}}; t[s] = {"r" + s, {16, 0}}; t[s + "l"] = {"r" + s, {8, 0}};
      }
      for (int i = 8; i < 16; i++) {
        string s = "r" + std::to_string(i);
        t[s] = {s, {64, 0}}; t[s + "d"] = {s, {32, 0}}; t[s + "w"] = {s, {16, 0}}; t[s + "b"] = {s, {8, 0}};
      }
    }
    return t;
  }
  AllocaInst* mkAlloca(const string& n, Type* t) {
    IRBuilder<> E(entry, entry->begin());
    return E.CreateAlloca(t, nullptr, n);
  }
  AllocaInst* regSlot(const string& r) {
    auto& a = regs[r];
    if (!a) { a = mkAlloca(r, I64); IRBuilder<> E(entry, std::next(a->getIterator())); E.CreateStore(ConstantInt::get(I64, 0), a); }
    return a;
  }
  struct R { AllocaInst* slot = nullptr; int w = 0, sh = 0; };
  // @N@ or @N:m@ for operands; %name for registers
  bool asReg(const string& s, R& r) {
    if (!s.empty() && s[0] == '@') {
      size_t c = s.find(':'), e = s.find('@', 1);
      if (e + 1 != s.size()) return false;
      int n = atoi(s.c_str() + 1);
      Opnd& o = ops[n];
      if (!o.isReg) return false;
      r.slot = o.slot; r.w = o.width;
      if (c != string::npos && c < e) {
        char m = s[c + 1];
        r.w = m == 'w' ? 16 : m == 'k' ? 32 : m == 'b' ? 8 : m == 'q' ? 64 : m == 'h' ? 8 : r.w;
        if (m == 'h') r.sh = 8;
      }
      return true;
    }
    if (!s.empty() && s[0] == '%') {
      auto it = regTable().find(s.substr(1));
      if (it == regTable().end()) return false;
      r.slot = regSlot(it->second.first); r.w = it->second.second.first; r.sh = it->second.second.second;
      return true;
    }
    return false;
  }
  Value* rdReg(const R& r, int w) {
    Value* v = B.CreateLoad(I64, r.slot);
    if (r.sh) v = B.CreateLShr(v, r.sh);
    return w == 64 ? v : B.CreateTrunc(v, IN(w));
  }
  void wrReg(const R& r, Value* v, int w) {
    if (w == 64) { B.CreateStore(v, r.slot); return; }
    Value* z = B.CreateZExt(v, I64);
    if (w == 32) { B.CreateStore(z, r.slot); return; }
    uint64_t mask = ((1ull << w) - 1) << r.sh;
    Value* old = B.CreateLoad(I64, r.slot);
    if (r.sh) z = B.CreateShl(z, r.sh);
    B.CreateStore(B.CreateOr(B.CreateAnd(old, ~mask), z), r.slot);
  }
  bool isMem(const string& s) {
    if (s.empty()) return false;
    if (s[0] == '$' || s[0] == '%') return s.rfind("%fs:", 0) == 0;
    if (s[0] == '@') { size_t e = s.find('@', 1); if (e + 1 == s.size()) return ops[atoi(s.c_str() + 1)].isMem; }
    if (s.find("@GOTPCREL") != string::npos) return false;
    return true;
  }
  int64_t num(string s, bool* ok = nullptr) {
    s = trim(s);
    // sum of terms
    int64_t v = 0; size_t i = 0; int sign = 1; bool any = false;
    while (i < s.size()) {
      if (s[i] == ' ') { i++; continue; }
      if (s[i] == '+') { sign = 1; i++; continue; }
      if (s[i] == '-') { sign = -1; i++; continue; }
      if (s[i] == '(' ) {
        size_t j = s.find(')', i); if (j == string::npos) { if (ok) *ok = false; return 0; }
        bool o2 = true; int64_t t = num(s.substr(i + 1, j - i - 1), &o2); if (!o2) { if (ok) *ok = false; return 0; }
        v += sign * t; sign = 1; i = j + 1; any = true; continue;
      }
      char* e; uint64_t t = strtoull(s.c_str() + i, &e, 0);
      if (e == s.c_str() + i) { if (ok) *ok = false; return 0; }
      v += sign * (int64_t)t; sign = 1; i = e - s.c_str(); any = true;
      while (*e == 'u' || *e == 'U' || *e == 'l' || *e == 'L') { e++; i++; }
    }
    if (ok) *ok = any;
    return v;
  }
  Value* addr(const string& s0) {
    string s = s0;
    if (s[0] == '@') {
      size_t e = s.find('@', 1);
      if (e + 1 == s.size()) return B.CreatePtrToInt(ops[atoi(s.c_str() + 1)].ptr, I64);
    }
    if (s.rfind("%fs:", 0) == 0) {
      s = s.substr(4);
      string idx;
      if (s.back() == ')') {
        size_t par = s.rfind('(');
        if (s.substr(par).find('%') != string::npos) { idx = s.substr(par + 1, s.size() - par - 2); s = s.substr(0, par); }
      }
      size_t at = s.find("@TPOFF");
      if (at == string::npos || !tlsBlock) die("thread-local operand " + s0);
      string sym = trim(s.substr(0, at));
      if (!tlsOff.count(sym)) die("thread-local symbol " + sym);
      bool ok = true; string o = trim(s.substr(at + 6)); int64_t off = o.empty() ? 0 : num(o, &ok);
      if (!ok) die("thread-local operand " + s0);
      Value* base = B.CreateIntrinsic(Intrinsic::threadlocal_address, {PointerType::getUnqual(Ctx)}, {tlsBlock});
      Value* v = B.CreateAdd(B.CreatePtrToInt(base, I64), ConstantInt::get(I64, tlsOff[sym] + off, true));
      if (!idx.empty()) { R r; if (!asReg(idx, r)) die("index " + s0); v = B.CreateAdd(v, rdReg(r, 64)); }
      return v;
    }
    size_t par = s.rfind('(');
    if (par == string::npos || s.back() != ')') die("memory operand " + s0);
    string disp = trim(s.substr(0, par));
    auto in = splitArgs(s.substr(par + 1, s.size() - par - 2));
    bool ok = true; int64_t d = disp.empty() ? 0 : num(disp, &ok);
    if (!ok) die("displacement " + s0);
    Value* v = ConstantInt::get(I64, d, true);
    R r;
    if (in.size() && !in[0].empty()) { if (!asReg(in[0], r)) die("base register " + s0); v = B.CreateAdd(rdReg(r, 64), v); }
    if (in.size() > 1) { R x; if (!asReg(in[1], x)) die("index register " + s0); int64_t sc = in.size() > 2 ? num(in[2]) : 1; v = B.CreateAdd(v, B.CreateMul(rdReg(x, 64), ConstantInt::get(I64, sc))); }
    return v;
  }
  Value* symbol(const string& s) { return ConstantInt::get(I64, symValue(scope, s)); }
  Value* read(const string& s, int w) {
    R r;
    if (asReg(s, r)) return rdReg(r, w);
    if (!s.empty() && s[0] == '$') {
      bool ok = true; int64_t v = num(s.substr(1), &ok);
      if (ok) return ConstantInt::get(IN(w), (uint64_t)v & (w == 64 ? ~0ull : (1ull << w) - 1));
      Value* sv = symbol(trim(s.substr(1)));
      return w == 64 ? sv : B.CreateTrunc(sv, IN(w));
    }
    size_t g = s.find("@GOTPCREL");
    if (g != string::npos) return symbol(s.substr(0, g));
    LoadInst* l = B.CreateAlignedLoad(IN(w), B.CreateIntToPtr(addr(s), PointerType::getUnqual(Ctx)), Align(1), true);
    return l;
  }
  void write(const string& s, Value* v, int w) {
    R r;
    if (asReg(s, r)) { wrReg(r, v, w); return; }
    if (!isMem(s)) die("destination " + s);
    B.CreateAlignedStore(v, B.CreateIntToPtr(addr(s), PointerType::getUnqual(Ctx)), Align(1), true);
  }
  int width(const Ins& I, const string& base) {
    if (I.op.size() == base.size() + 1) switch (I.op.back()) { case 'q': return 64; case 'l': return 32; case 'w': return 16; case 'b': return 8; }
    R r;
    for (size_t k = I.args.size(); k-- > 0;) if (asReg(I.args[k], r)) return r.w;
    return 64;
  }
  Value* bit(bool b) { return ConstantInt::get(Type::getInt1Ty(Ctx), b); }
  void zs(Value* v, int w) {
    B.CreateStore(B.CreateICmpEQ(v, ConstantInt::get(IN(w), 0)), ZF);
    B.CreateStore(B.CreateICmpSLT(v, ConstantInt::get(IN(w), 0)), SF);
  }
  void subFlags(Value* a, Value* b, int w, bool cf = true) {
    Value* d = B.CreateSub(a, b);
    if (cf) B.CreateStore(B.CreateICmpULT(a, b), CF);
    Value* o = B.CreateAnd(B.CreateXor(a, b), B.CreateXor(a, d));
    B.CreateStore(B.CreateICmpSLT(o, ConstantInt::get(IN(w), 0)), OF);
    zs(d, w);
  }
  void addFlags(Value* a, Value* b, int w, bool cf = true) {
    Value* d = B.CreateAdd(a, b);
    if (cf) B.CreateStore(B.CreateICmpULT(d, a), CF);
    Value* o = B.CreateAnd(B.CreateXor(a, d), B.CreateXor(b, d));
    B.CreateStore(B.CreateICmpSLT(o, ConstantInt::get(IN(w), 0)), OF);
    zs(d, w);
  }
  void logicFlags(Value* d, int w) { B.CreateStore(bit(0), CF); B.CreateStore(bit(0), OF); zs(d, w); }
  Value* fl(AllocaInst* f) { return B.CreateLoad(Type::getInt1Ty(Ctx), f); }
  Value* cond(const string& c) {
    auto N = [&](Value* v) { return B.CreateNot(v); };
    if (c == "c" || c == "b" || c == "nae") return fl(CF);
    if (c == "nc" || c == "ae" || c == "nb") return N(fl(CF));
    if (c == "z" || c == "e") return fl(ZF);
    if (c == "nz" || c == "ne") return N(fl(ZF));
    if (c == "s") return fl(SF);
    if (c == "ns") return N(fl(SF));
    if (c == "o") return fl(OF);
    if (c == "no") return N(fl(OF));
    if (c == "a" || c == "nbe") return B.CreateAnd(N(fl(CF)), N(fl(ZF)));
    if (c == "be" || c == "na") return B.CreateOr(fl(CF), fl(ZF));
    if (c == "l" || c == "nge") return B.CreateXor(fl(SF), fl(OF));
    if (c == "ge" || c == "nl") return N(B.CreateXor(fl(SF), fl(OF)));
    if (c == "le" || c == "ng") return B.CreateOr(fl(ZF), B.CreateXor(fl(SF), fl(OF)));
    if (c == "g" || c == "nle") return B.CreateAnd(N(fl(ZF)), N(B.CreateXor(fl(SF), fl(OF))));
    return nullptr;
  }
  BasicBlock* target(const string& t, int line) {
    if (!t.empty() && t[0] == '@') {
      int n = atoi(t.c_str() + 1);
      if (n >= (int)ops.size() || !ops[n].isLabel) die("jump operand " + t);
      BasicBlock* x = BasicBlock::Create(Ctx, "out", F);
      auto save = B.saveIP();
      B.SetInsertPoint(x); onExit(ops[n].labelNo + 1);
      B.restoreIP(save);
      return x;
    }
    Pos p;
    if (!resolve(P, t, line, p)) die("jump target " + t);
    return bb[p.sec][p.idx];
  }
  bool touches(const Ins& I) { if (I.op.rfind("lea", 0) == 0 || I.op.rfind("prefetch", 0) == 0 || I.op[0] == 'j' || I.op.rfind("nop", 0) == 0) return false; for (auto& a : I.args) if (isMem(a)) return true; return false; }
  bool stores(const Ins& I) { if (I.op.rfind("cmp", 0) == 0 || I.op.rfind("test", 0) == 0 || I.op == "bt" || I.op == "btq" || I.op == "btl") return false; return touches(I) && isMem(I.args.back()); }

  // The kernel's view at instruction (sec, idx): returns with B positioned where execution continues if not interrupted or outside a sequence.
  void step(int sec, int idx) {
    Type* I32 = Type::getInt32Ty(Ctx);
    FunctionCallee fn = M->getOrInsertFunction("verif_rseq_step", FunctionType::get(I64, false));
    Value* cs = B.CreateCall(fn);      // 0: not interrupted; otherwise the value rseq_cs had
    for (auto& [name, d] : ds) {
      if (!d.ok || d.start.sec != sec || idx < d.start.idx || idx >= d.end) continue;
      BasicBlock* ab = BasicBlock::Create(Ctx, "abort", F);
      BasicBlock* next = BasicBlock::Create(Ctx, "run", F);
      B.CreateCondBr(B.CreateICmpEQ(cs, symbol(name)), ab, next);
      B.SetInsertPoint(ab);
      FunctionCallee sg = M->getOrInsertFunction("verif_rseq_abort", FunctionType::get(Type::getVoidTy(Ctx), {I32}, false));
      B.CreateCall(sg, {ConstantInt::get(I32, d.sig)});
      B.CreateBr(bb[d.abort.sec][d.abort.idx]);
      B.SetInsertPoint(next);
    }
  }
  void run(int startSec, int startIdx) {
    entry = BasicBlock::Create(Ctx, "entry", F, F->empty() ? nullptr : &F->front());
    ds = descriptors(P);
    B.SetInsertPoint(entry);
    Type* I1 = Type::getInt1Ty(Ctx);
    CF = B.CreateAlloca(I1); ZF = B.CreateAlloca(I1); SF = B.CreateAlloca(I1); OF = B.CreateAlloca(I1);
    for (auto* f : {CF, ZF, SF, OF}) B.CreateStore(bit(0), f);
    for (auto& o : ops) if (o.isReg) {
      o.slot = B.CreateAlloca(I64);
      Value* v = o.init ? o.init : (Value*)ConstantInt::get(I64, 0xA5A5A5A5A5A5A5A5ull);
      if (v->getType()->isPointerTy()) v = B.CreatePtrToInt(v, I64);
      else if (v->getType() != I64) v = B.CreateZExt(v, I64);
      B.CreateStore(v, o.slot);
    }
    for (size_t s = 0; s < P.code.size(); s++) {
      bb.push_back({});
      for (size_t i = 0; i <= P.code[s].size(); i++) bb[s].push_back(BasicBlock::Create(Ctx, "i", F));
    }
    std::set<std::pair<int, int>> afterStore;
    for (size_t s = 0; s < P.code.size(); s++) for (size_t i = 0; i < P.code[s].size(); i++) if (stores(P.code[s][i])) afterStore.insert({(int)s, (int)i + 1});
    BasicBlock* body = BasicBlock::Create(Ctx, "body", F);
    B.CreateBr(body);
    B.SetInsertPoint(body);
    if (isFunc) {
      const char* an[6] = {"rdi", "rsi", "rdx", "rcx", "r8", "r9"};
      int k = 0;
      for (auto& A : F->args()) {
        if (k == 6) die("too many arguments");
        Value* v = &A;
        if (v->getType()->isPointerTy()) v = B.CreatePtrToInt(v, I64); else if (v->getType() != I64) v = B.CreateZExt(v, I64);
        B.CreateStore(v, regSlot(an[k++]));
      }
    }
    B.CreateBr(bb[startSec][startIdx]);
    for (size_t s = 0; s < P.code.size(); s++) {
      for (size_t i = 0; i < P.code[s].size(); i++) {
        const Ins& I = P.code[s][i];
        B.SetInsertPoint(bb[s][i]);
        if (touches(I) || afterStore.count({(int)s, (int)i})) step(s, i);
        if (!emit(I)) die("unsupported instruction: " + I.text);
        if (!B.GetInsertBlock()->getTerminator()) B.CreateBr(bb[s][i + 1]);
      }
      B.SetInsertPoint(bb[s].back());
      if (s == 0 && !isFunc) onExit(0); else B.CreateUnreachable();
    }
  }
  static bool base(const string& op, const string& b) { return op == b || (op.size() == b.size() + 1 && op.rfind(b, 0) == 0 && strchr("qlwb", op.back())); }
  bool emit(const Ins& I) {
    const string& op = I.op;
    auto& a = I.args;
    if (op.rfind("nop", 0) == 0 || op.rfind("prefetch", 0) == 0 || op == "endbr64" || op == "pause" || op == "ud2") return true;
    if (op == "ret" || op == "retq") { if (!isFunc) return false; onExit(0); return true; }
    if (op == "jmp") { B.CreateBr(target(a[0], I.line)); return true; }
    if (op[0] == 'j') {
      Value* c = cond(op.substr(1));
      if (!c) return false;
      BasicBlock* t = target(a[0], I.line);
      BasicBlock* n = BasicBlock::Create(Ctx, "ft", F);
      B.CreateCondBr(c, t, n);
      B.SetInsertPoint(n);
      return true;
    }
    if (op == "cmc") { B.CreateStore(B.CreateNot(fl(CF)), CF); return true; }
    if (op == "clc") { B.CreateStore(bit(0), CF); return true; }
    if (op == "stc") { B.CreateStore(bit(1), CF); return true; }
    if (op.rfind("movz", 0) == 0 || op.rfind("movs", 0) == 0) {
      string t = op.substr(4);
      if (t.size() == 2 && a.size() == 2) {
        auto W = [](char c) { return c == 'q' ? 64 : c == 'l' ? 32 : c == 'w' ? 16 : c == 'b' ? 8 : 0; };
        int w1 = W(t[0]), w2 = W(t[1]);
        if (!w1 || !w2) return false;
        Value* v = read(a[0], w1);
        write(a[1], op[3] == 'z' ? B.CreateZExt(v, IN(w2)) : B.CreateSExt(v, IN(w2)), w2);
        return true;
      }
      return false;
    }
    if (base(op, "mov") || op == "movabs" || op == "movabsq") { int w = op.rfind("movabs", 0) == 0 ? 64 : width(I, "mov"); write(a[1], read(a[0], w), w); return true; }
    if (base(op, "lea")) { int w = width(I, "lea"); Value* v = addr(a[0]); write(a[1], w == 64 ? v : B.CreateTrunc(v, IN(w)), w); return true; }
    if (base(op, "xchg")) { int w = width(I, "xchg"); Value *x = read(a[0], w), *y = read(a[1], w); write(a[0], y, w); write(a[1], x, w); return true; }
    if (base(op, "cmp")) { int w = width(I, "cmp"); Value *b = read(a[0], w), *x = read(a[1], w); subFlags(x, b, w); return true; }
    if (base(op, "test")) { int w = width(I, "test"); logicFlags(B.CreateAnd(read(a[0], w), read(a[1], w)), w); return true; }
    for (string b : {"add", "sub", "and", "or", "xor", "imul"}) if (base(op, b) && a.size() == 2) {
      int w = width(I, b);
      Value *y = read(a[0], w), *x = read(a[1], w), *d = nullptr;
      if (b == "add") { d = B.CreateAdd(x, y); addFlags(x, y, w); }
      else if (b == "sub") { d = B.CreateSub(x, y); subFlags(x, y, w); }
      else if (b == "imul") { d = B.CreateMul(x, y); }
      else { d = b == "and" ? B.CreateAnd(x, y) : b == "or" ? B.CreateOr(x, y) : B.CreateXor(x, y); if (b == "xor" && a[0] == a[1]) d = ConstantInt::get(IN(w), 0); logicFlags(d, w); }
      write(a[1], d, w);
      return true;
    }
    for (string b : {"inc", "dec", "neg", "not"}) if (base(op, b) && a.size() == 1) {
      int w = width(I, b);
      Value *x = read(a[0], w), *one = ConstantInt::get(IN(w), 1), *d;
      if (b == "inc") { addFlags(x, one, w, false); d = B.CreateAdd(x, one); }
      else if (b == "dec") { subFlags(x, one, w, false); d = B.CreateSub(x, one); }
      else if (b == "neg") { subFlags(ConstantInt::get(IN(w), 0), x, w); d = B.CreateNeg(x); }
      else d = B.CreateNot(x);
      write(a[0], d, w);
      return true;
    }
    for (string b : {"shl", "sal", "shr", "sar"}) if (base(op, b)) {
      int w = width(I, b);
      string dst = a.back();
      Value* x = read(dst, w);
      Value* n = a.size() == 1 ? (Value*)ConstantInt::get(IN(w), 1) : a[0][0] == '$' ? read(a[0], w) : B.CreateZExtOrTrunc(read(a[0], 8), IN(w));
      n = B.CreateAnd(n, ConstantInt::get(IN(w), w == 64 ? 63 : 31));
      Value* d = b == "shr" ? B.CreateLShr(x, n) : b == "sar" ? B.CreateAShr(x, n) : B.CreateShl(x, n);
      zs(d, w);     // CF/OF of shifts are not modelled
      write(dst, d, w);
      return true;
    }
    for (string b : {"btr", "bts", "btc", "bt"}) if (base(op, b)) {
      int w = width(I, b);
      Value* n = B.CreateAnd(read(a[0], w), ConstantInt::get(IN(w), w - 1));
      Value* x = read(a[1], w);
      Value* m = B.CreateShl(ConstantInt::get(IN(w), 1), n);
      B.CreateStore(B.CreateICmpNE(B.CreateAnd(x, m), ConstantInt::get(IN(w), 0)), CF);
      if (b == "btr") write(a[1], B.CreateAnd(x, B.CreateNot(m)), w);
      else if (b == "bts") write(a[1], B.CreateOr(x, m), w);
      else if (b == "btc") write(a[1], B.CreateXor(x, m), w);
      return true;
    }
    if (op.rfind("cmov", 0) == 0 && a.size() == 2) {
      string c = op.substr(4);
      Value* cv = cond(c); int w = 0; R r;
      if (!asReg(a[1], r)) return false;
      w = r.w;
      if (!cv && !c.empty()) { w = c.back() == 'q' ? 64 : c.back() == 'l' ? 32 : 16; cv = cond(c.substr(0, c.size() - 1)); }
      if (!cv) return false;
      write(a[1], B.CreateSelect(cv, read(a[0], w), read(a[1], w)), w);
      return true;
    }
    if (op.rfind("set", 0) == 0 && a.size() == 1) { Value* c = cond(op.substr(3)); if (!c) return false; write(a[0], B.CreateZExt(c, IN(8)), 8); return true; }
    return false;
  }
};

static int counter = 0;
static void liftCall(CallBase* cb) {
  auto* ia = cast<InlineAsm>(cb->getCalledOperand());
  auto cons = ia->ParseConstraints();
  // function taking the call's arguments and returning { outputs as i64..., exit }
  vector<Type*> at;
  for (auto& A : cb->args()) at.push_back(A->getType());
  unsigned nout = 0;
  for (auto& c : cons) if (c.Type == InlineAsm::isOutput && !c.isIndirect) nout++;
  vector<Type*> rt(nout, Type::getInt64Ty(Ctx));
  rt.push_back(Type::getInt32Ty(Ctx));
  StructType* RT = StructType::get(Ctx, rt);
  Function* F = Function::Create(FunctionType::get(RT, at, false), GlobalValue::InternalLinkage, "lifted_asm", M);
  F->addFnAttr(Attribute::NoInline);
  vector<Type*> outT;
  if (auto* st = dyn_cast<StructType>(cb->getType())) for (auto* t : st->elements()) outT.push_back(t);
  else if (!cb->getType()->isVoidTy()) outT.push_back(cb->getType());
  auto tw = [](Type* t) { return t->isPointerTy() ? 64 : (int)t->getIntegerBitWidth(); };
  vector<Opnd> ops; vector<unsigned> outOps;
  unsigned arg = 0, oi = 0, lab = 0;
  for (auto& c : cons) {
    Opnd o;
    if (c.Type == InlineAsm::isClobber) continue;
    if (c.Type == InlineAsm::isLabel) { o.isLabel = true; o.labelNo = lab++; ops.push_back(o); continue; }
    if (c.Type == InlineAsm::isOutput && !c.isIndirect) {
      o.isOut = true; o.width = tw(outT[oi++]);
      if (c.Codes.size() && c.Codes[0].rfind("{@cc", 0) == 0) { o.flag = c.Codes[0].substr(4); o.flag.pop_back(); }
      else o.isReg = true;
      outOps.push_back(ops.size());
    } else {
      Argument* A = F->getArg(arg);
      Value* actual = cb->getArgOperand(arg++);
      if (c.isIndirect) { o.isMem = true; o.ptr = A; }
      else if (c.Codes.size() && isdigit(c.Codes[0][0])) { Opnd& t = ops[atoi(c.Codes[0].c_str())]; t.init = A; o = t; ops.push_back(o); continue; }
      else if (auto* ci = dyn_cast<ConstantInt>(actual); ci && c.Codes.size() && (c.Codes[0] == "n" || c.Codes[0] == "i")) o.imm = std::to_string(ci->getSExtValue());
      else if (c.Codes.size() && c.Codes[0] == "m") die("direct memory operand");
      else { o.isReg = true; o.init = A; o.width = tw(A->getType()); }
    }
    ops.push_back(o);
  }
  // template
  string t = ia->getAsmString(), s;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] != '$') { s += t[i]; continue; }
    if (t[i + 1] == '$') { s += '$'; i++; continue; }
    if (t.compare(i, 7, "${:uid}") == 0) { s += "U"; i += 6; continue; }
    string n, mod;
    if (t[i + 1] == '{') {
      size_t e = t.find('}', i); string in = t.substr(i + 2, e - i - 2); i = e;
      size_t c = in.find(':'); n = in.substr(0, c); if (c != string::npos) mod = in.substr(c + 1);
    } else { size_t e = i + 1; while (e < t.size() && isdigit(t[e])) e++; n = t.substr(i + 1, e - i - 1); i = e - 1; }
    if (n.empty() || !isdigit(n[0])) die("template " + t.substr(i, 20));
    unsigned k = atoi(n.c_str());
    if (k >= ops.size()) die("operand number");
    if (!ops[k].imm.empty()) s += (mod == "c" || mod == "P" ? "" : "$") + ops[k].imm;
    else s += "@" + n + (mod.empty() || mod == "l" ? "" : ":" + mod) + "@";
  }
  Program P = parse(s);
  Xlate X{P, F, ops, "asm" + std::to_string(counter++)};
  X.onExit = [&](int code) {
    Value* r = PoisonValue::get(RT);
    for (unsigned k = 0; k < outOps.size(); k++) {
      Opnd& o = ops[outOps[k]];
      Value* v = o.isReg ? (Value*)X.B.CreateLoad(X.I64, o.slot) : X.B.CreateZExt(X.cond(o.flag), X.I64);
      r = X.B.CreateInsertValue(r, v, k);
    }
    r = X.B.CreateInsertValue(r, ConstantInt::get(Type::getInt32Ty(Ctx), code), nout);
    X.B.CreateRet(r);
  };
  X.run(0, 0);
  // replace the call
  IRBuilder<> B(cb);
  vector<Value*> args(cb->arg_begin(), cb->arg_end());
  CallInst* ci = B.CreateCall(F, args);
  ci->setDebugLoc(cb->getDebugLoc());
  Value* res = nullptr;
  auto conv = [&](Value* v, Type* ty) -> Value* { return ty->isPointerTy() ? B.CreateIntToPtr(v, ty) : ty->isIntegerTy(64) ? v : B.CreateTrunc(v, ty); };
  if (isa<StructType>(cb->getType())) {
    res = PoisonValue::get(cb->getType());
    for (unsigned k = 0; k < nout; k++) res = B.CreateInsertValue(res, conv(B.CreateExtractValue(ci, k), outT[k]), k);
  } else if (!cb->getType()->isVoidTy()) res = conv(B.CreateExtractValue(ci, 0u), cb->getType());
  if (auto* br = dyn_cast<CallBrInst>(cb)) {
    Value* ex = B.CreateExtractValue(ci, nout);
    vector<CallBase*> lps;
    for (auto* U : br->users()) if (auto* I = dyn_cast<IntrinsicInst>(U)) if (I->getIntrinsicID() == Intrinsic::callbr_landingpad) lps.push_back(I);
    for (auto* I : lps) { I->replaceAllUsesWith(res); I->eraseFromParent(); }
    SwitchInst* sw = B.CreateSwitch(ex, br->getDefaultDest(), br->getNumIndirectDests());
    for (unsigned k = 0; k < br->getNumIndirectDests(); k++) sw->addCase(ConstantInt::get(Type::getInt32Ty(Ctx), k + 1), br->getIndirectDest(k));
  }
  if (res) cb->replaceAllUsesWith(res);
  cb->eraseFromParent();
}

static void tlsLayout(Program& P) {
  // every label of .tdata at its offset
  vector<std::pair<int, std::pair<int, string>>> ev;   // line, (size or -1 for label, text)
  for (auto& [l, ps] : P.labels) for (auto& p : ps) if (P.secName[p.sec] == ".tdata") ev.push_back({p.line, {-1, l}});
  if (ev.empty()) return;
  std::set<int> seen;
  vector<std::tuple<int, int, string, int>> items;     // line, order, expr, size
  for (auto& [k, ds] : P.data) for (auto& d : ds) ev.push_back({d.line, {d.size, d.expr}});
  for (auto& [k, ds] : P.before) if (!ds.empty()) {
    string l = k.substr(0, k.find('#'));
    bool t = false; for (auto& p : P.labels[l]) if (P.secName[p.sec] == ".tdata" && k.substr(k.find('#') + 1) == std::to_string(p.line)) t = true;
    if (t) for (auto& d : ds) ev.push_back({d.line, {d.size, d.expr}});
  }
  int firstLabel = INT_MAX; for (auto& e : ev) if (e.second.first == -1) firstLabel = std::min(firstLabel, e.first);
  std::sort(ev.begin(), ev.end());
  ev.erase(std::unique(ev.begin(), ev.end()), ev.end());
  vector<uint8_t> bytes;
  Function* dummy = nullptr; vector<Opnd> none;
  Xlate X{P, dummy, none, ""};
  int lo = firstLabel; for (auto& e : ev) if (e.second.first != -1 && e.second.first == 0 && e.first < firstLabel && e.first > firstLabel - 6) lo = std::min(lo, e.first);
  for (auto& e : ev) {
    if (e.first < lo) continue;
    if (e.second.first == -1) { tlsOff[e.second.second] = bytes.size(); continue; }
    uint64_t v = X.num(e.second.second);
    if (e.second.first == 0) bytes.insert(bytes.end(), v, 0);
    else for (int i = 0; i < e.second.first; i++) bytes.push_back(i < 8 ? v >> (8 * i) : 0);
  }
  while (bytes.size() % 64) bytes.push_back(0);
  Constant* init = ConstantDataArray::get(Ctx, bytes);
  tlsBlock = new GlobalVariable(*M, init->getType(), false, GlobalValue::InternalLinkage, init, "lifted_tls", nullptr, GlobalValue::InitialExecTLSModel);
  tlsBlock->setAlignment(Align(64));
  for (auto& [n, off] : tlsOff) {
    GlobalVariable* g = M->getNamedGlobal(n);
    if (!g) continue;
    vector<User*> us(g->user_begin(), g->user_end());
    for (auto* U : us) {
      if (auto* I = dyn_cast<IntrinsicInst>(U); I && I->getIntrinsicID() == Intrinsic::threadlocal_address) {
        IRBuilder<> B(I);
        Value* b = B.CreateIntrinsic(Intrinsic::threadlocal_address, {PointerType::getUnqual(Ctx)}, {tlsBlock});
        I->replaceAllUsesWith(B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(Ctx), b, off));
        I->eraseFromParent();
      } else {
        errs() << "lift: use of " << n << " outside threadlocal.address\n";
        U->print(errs()); errs() << "\n"; exit(3);
      }
    }
    if (g->use_empty()) { string nm = g->getName().str(); g->eraseFromParent(); }
  }
}

int main(int argc, char** argv) {
  if (argc < 3) { errs() << "lift in.bc out.bc [file.s]\n"; return 2; }
  SMDiagnostic e;
  auto m = parseIRFile(argv[1], e, Ctx);
  if (!m) { e.print("lift", errs()); return 2; }
  M = m.get();
  Program S; bool haveS = false;
  if (argc > 3) {
    std::ifstream f(argv[3]);
    std::stringstream ss; ss << f.rdbuf();
    string text = ss.str();
    S = parse(text); haveS = true;
    tlsLayout(S);
  }
  vector<CallBase*> todo;
  for (auto& F : *M) for (auto& Bk : F) for (auto& I : Bk)
    if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* ia = dyn_cast<InlineAsm>(cb->getCalledOperand()))
      if (isa<CallBrInst>(cb) || StringRef(ia->getAsmString()).contains("rseq")) todo.push_back(cb);
  for (auto* c : todo) liftCall(c);
  unsigned nf = 0;
  if (haveS) {
    vector<Function*> decls;
    for (auto& F : *M) if (S.labels.count(F.getName().str()) && (F.isDeclaration() || F.isWeakForLinker())) decls.push_back(&F);
    for (auto* F : decls) {
      F->deleteBody();
      F->setLinkage(GlobalValue::ExternalLinkage);
      F->removeFnAttr(Attribute::NoReturn);
      vector<Opnd> none;
      Program P = S;
      // keep only this function's own code: cut other sections' unreachable instructions lazily
      Pos p = P.labels[F->getName().str()][0];
      // instructions reachable from p
      std::set<std::pair<int, int>> seen; vector<std::pair<int, int>> wl{{p.sec, p.idx}};
      auto dsv = descriptors(P);
      while (!wl.empty()) {
        auto [s, i] = wl.back(); wl.pop_back();
        if (i >= (int)P.code[s].size() || !seen.insert({s, i}).second) continue;
        const Ins& I = P.code[s][i];
        bool fall = true;
        if (I.op[0] == 'j') { Pos t; if (!I.args.empty() && resolve(P, I.args[0], I.line, t)) wl.push_back({t.sec, t.idx}); fall = I.op != "jmp"; }
        if (I.op == "ret" || I.op == "retq") fall = false;
        if (fall) wl.push_back({s, i + 1});
        for (auto& [n, d] : dsv) if (d.ok && d.start.sec == s && i >= d.start.idx && i < d.end) wl.push_back({d.abort.sec, d.abort.idx});
      }
      for (size_t s = 0; s < P.code.size(); s++) for (size_t i = 0; i < P.code[s].size(); i++) if (!seen.count({(int)s, (int)i})) P.code[s][i] = Ins{"nop", {}, "nop", P.code[s][i].line};
      Xlate X{P, F, none, "S"};
      X.isFunc = true;
      X.onExit = [&](int) {
        if (F->getReturnType()->isVoidTy()) { X.B.CreateRetVoid(); return; }
        Value* v = X.B.CreateLoad(X.I64, X.regSlot("rax"));
        X.B.CreateRet(F->getReturnType()->isPointerTy() ? X.B.CreateIntToPtr(v, F->getReturnType()) : F->getReturnType()->isIntegerTy(64) ? v : X.B.CreateTrunc(v, F->getReturnType()));
      };
      X.run(p.sec, p.idx);
      nf++;
    }
  }
  string err; raw_string_ostream os(err);
  if (verifyModule(*M, &os)) { errs() << "lift: " << os.str().substr(0, 2000) << "\n"; return 3; }
  std::error_code ec;
  raw_fd_ostream out(argv[2], ec);
  WriteBitcodeToFile(*M, out);
  errs() << "lifted " << todo.size() << " inline blocks, " << nf << " functions, " << symIds.size() << " symbols\n";
  return 0;
}
