// Interpreter, forking, memory resolution, merging and reporting.
static int exitCode = 0;
struct Stop {};
static const void* kNever = nullptr;

static double elapsed() { return secs(t0, Clock::now()); }
static uint64_t rssMB() {
  FILE* f = fopen("/proc/self/statm", "r");
  if (!f) return 0;
  unsigned long a, b = 0;
  if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
  fclose(f);
  return b * 4096 >> 20;
}
static void checkBudget() {
  if (elapsed() > opt.maxTime) { S.timeout = true; incomplete("time budget exhausted"); throw Stop(); }
}

// ------------------------------------------------------------ values
static inline Val mk(E e) { Val v; if (e->isConst() && e->w <= 64) v.c = (uint64_t)e->k; else v.e = e; return v; }
static inline E ex(const Val& v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }
static inline Val& reg(Frame& f, int s) { return s >= 0 ? f.r[s] : f.f->consts[-1 - s]; }
static inline Val cv(uint64_t c) { Val v; v.c = c; return v; }
static inline bool isC(const Val& v) { return !v.e; }

static std::vector<State*>* work = nullptr;   // current work list
static uint64_t stateCounter = 0;
static std::unordered_map<std::string, E> inputVar;
static std::vector<std::string> inputNames;
static std::unordered_map<std::string, uint32_t> inputNameId;

static E newInput(State& s, const std::string& name, unsigned w, uint64_t init = 0) {
  int occ = s.nameCount[name]++;
  std::string key = name + "#" + std::to_string(occ);
  auto it = inputVar.find(key);
  E v;
  if (it == inputVar.end() || it->second->w != w) { v = X.var(key, w); inputVar[key] = v; }
  else v = it->second;
  auto jt = inputNameId.find(key);
  uint32_t id;
  if (jt == inputNameId.end()) { id = inputNames.size(); inputNames.push_back(key); inputNameId[key] = id; }
  else id = jt->second;
  s.inputs.push_back({v, (uint16_t)w, id});
  if (s.model.v.size() <= v->aux) s.model.v.resize(v->aux + 1, 0);
  if (s.model.v[v->aux] != init) { s.model.v[v->aux] = init; s.model.id = ++modelCounter; }
  return v;
}

static std::map<std::string, uint64_t> forkSites;
static void backtrace(State& s, std::vector<std::string>& out);
static State* forkState(State& s) {
  if (opt.verbose) { std::vector<std::string> bt; backtrace(s, bt); std::string k; for (size_t i = 0; i < bt.size() && i < 3; i++) { size_t q = bt[i].rfind(" ("); std::string l = q == std::string::npos ? bt[i] : bt[i].substr(q); size_t sl = l.rfind('/'); k += (i ? " < " : "") + (sl == std::string::npos ? l.substr(0, 60) : l.substr(sl + 1)); } forkSites[k]++; }
  State* n = new State(s);
  s.mem.flush();
  n->id = ++stateCounter;
  S.forks++;
  return n;
}

// Restricts s to c; a sibling restricted to !c (when feasible) re-executes the
// current instruction.  The model of s decides which side s takes.
static bool splitHere(State& s, E c) {
  bool side = holds(s, c);
  E other = side ? X.not1(c) : c;
  Model m;
  int r = mayBeTrue(s, other, &m);
  if (r == 1) {
    State* n = forkState(s);
    addPC(*n, other);
    n->model = m;
    work->push_back(n);
    addPC(s, side ? c : X.not1(c));
  }
  return side;
}
static uint64_t concretizeHere(State& s, const Val& v, unsigned w) {
  if (isC(v)) return v.c;
  E e = fixE(s, v.e);
  if (e->isConst()) return (uint64_t)e->k;
  uint64_t val = (uint64_t)X.eval(e, s.model);
  splitHere(s, X.eq(e, X.cst(val, w)));
  return val;
}

static void leafConsts(E e, std::vector<uint64_t>& out, std::unordered_set<E>& seen);
// Splits on an expression that is a choice among constants until one is left,
// halving the set each time so that the ranges learned stay simple.
static uint64_t concretizeLeaves(State& s, E e) {
  for (;;) {
    e = fixE(s, e);
    if (e->isConst()) return (uint64_t)e->k;
    if (!e->leaves || e->leaves > 3000) return concretizeHere(s, mk(e), e->w);
    std::vector<uint64_t> l;
    std::unordered_set<E> seen;
    leafConsts(e, l, seen);
    std::sort(l.begin(), l.end());
    l.erase(std::unique(l.begin(), l.end()), l.end());
    if (l.size() <= 1) return l[0];
    E c = X.cmp(Op::Ult, e, X.cst(l[l.size() / 2], e->w));
    bool side = splitHere(s, c);
    // keep only the leaves of this side
    E keep = X.cst(side ? l[0] : l[l.size() / 2], e->w);
    uint64_t mid = l[l.size() / 2];
    e = X.mapLeaves(e, [&](E t) -> E { return ((uint64_t)t->k < mid) == side ? t : keep; });
  }
}

// ------------------------------------------------------------ memory
[[noreturn]] static void memViolation(State& s, const char* what, uint64_t a, unsigned n) {
  char b[128];
  snprintf(b, sizeof b, "%s of %u bytes at 0x%llx", what, n, (unsigned long long)a);
  throw Violation{"memory", b};
}
static inline void checkC(State& s, uint64_t a, unsigned n, bool write) {
  if (!s.mem.isValid(a, n)) memViolation(s, write ? "invalid write" : "invalid read", a, n);
}
static void leafConsts(E e, std::vector<uint64_t>& out, std::unordered_set<E>& seen) {
  if (!seen.insert(e).second) return;
  if (e->isConst()) { out.push_back((uint64_t)e->k); return; }
  leafConsts(e->b, out, seen);
  leafConsts(e->c, out, seen);
}

static void resolve(State& s, E e, unsigned n, bool write, std::vector<uint64_t>& out) {
  S.symMem++;
  if (opt.forkPtr) { uint64_t a = concretizeHere(s, mk(e), 64); checkC(s, a, n, write); out.push_back(a); return; }
  if (opt.forkLeaves && e->leaves) { uint64_t a = concretizeLeaves(s, e); checkC(s, a, n, write); out.push_back(a); return; }
  if (e->leaves && e->leaves <= 256) {
    std::vector<uint64_t> l;
    std::unordered_set<E> seen;
    leafConsts(e, l, seen);
    std::sort(l.begin(), l.end());
    l.erase(std::unique(l.begin(), l.end()), l.end());
    for (uint64_t a : l) {
      if (s.mem.isValid(a, n)) { out.push_back(a); continue; }
      Model m;
      E c = X.eq(e, X.cst(a, 64));
      int r = mayBeTrue(s, c, &m);
      if (r == 1) {
        if (splitHere(s, c)) memViolation(s, write ? "invalid write" : "invalid read", a, n);
      }
    }
    if (out.empty()) throw PathEnd();
    return;
  }
  uint64_t m = (uint64_t)X.eval(e, s.model);
  if (!s.mem.isValid(m, n)) {
    // Explore the valid alternatives in a sibling before reporting.
    memViolation(s, write ? "invalid write" : "invalid read", m, n);
  }
  Rng er = rangeOf(s, e);
  uint64_t lo = std::max(e->lo, er.first), hi = std::min(e->hi, er.second);
  // contiguous valid region around the model's address
  uint64_t L = m, H = m + n;
  auto pageFull = [&](uint64_t pn) { return (!s.mem.havePage(pn) && s.mem.inLazy(pn)); };
  while (L > lo && m - L < opt.rangeMax) {
    if ((L & (kPg - 1)) == 0 && pageFull((L >> kPgBits) - 1)) { L -= std::min<uint64_t>(kPg, L - lo); continue; }
    if ((L & (kPg - 1)) == 0 && L - lo >= kPg && s.mem.isValid(L - kPg, kPg)) { L -= kPg; continue; }
    if ((L & 63) == 0 && L - lo >= 64 && s.mem.isValid(L - 64, 64)) { L -= 64; continue; }
    if (!s.mem.isValid(L - 1, 1)) break;
    L--;
  }
  uint64_t top = hi > ~0ull - n ? ~0ull : hi + n;
  while (H < top && H - m < opt.rangeMax) {
    if ((H & (kPg - 1)) == 0 && pageFull(H >> kPgBits)) { H += std::min<uint64_t>(kPg, top - H); continue; }
    if ((H & (kPg - 1)) == 0 && top - H >= kPg && s.mem.isValid(H, kPg)) { H += kPg; continue; }
    if ((H & 63) == 0 && top - H >= 64 && s.mem.isValid(H, 64)) { H += 64; continue; }
    if (!s.mem.isValid(H, 1)) break;
    H++;
  }
  if (lo < L || hi > H - n) {
    E outc = X.fls();
    if (lo < L) outc = X.or1(outc, X.cmp(Op::Ult, e, X.cst(L, 64)));
    if (hi > H - n) outc = X.or1(outc, X.cmp(Op::Ult, X.cst(H - n, 64), e));
    splitHere(s, outc);   // the model is inside, so s keeps the inside
    lo = std::max(lo, L);
    hi = std::min(hi, H - n);
  }
  E base = e;
  uint64_t off = 0;
  if (e->op == Op::Add && (e->a->isConst() || e->b->isConst())) {
    off = (uint64_t)(e->a->isConst() ? e->a->k : e->b->k);
    base = e->a->isConst() ? e->b : e->a;
  }
  uint64_t nz = ~base->zeros;
  uint64_t step = nz ? (nz & (0 - nz)) : 1;
  uint64_t first = m - ((m - lo) / step) * step;
  uint64_t count = (hi - first) / step + 1;
  auto direct = [&]() { for (uint64_t i = 0; i < count; i++) out.push_back(first + i * step); };
  if (count <= 16) { direct(); return; }
  if (!write && count <= 8192 && s.mem.concreteRange(first, hi + n - first)) { direct(); return; }
  std::vector<uint64_t> got{m};
  Model mm = s.model;
  E block = X.not1(X.eq(e, X.cst(m, 64)));
  bool full = false;
  while (got.size() <= opt.ptrEnum) {
    Model m2;
    int r = mayBeTrue(s, block, &m2);
    if (r != 1) { full = r == 0; break; }
    uint64_t v = (uint64_t)X.eval(e, m2);
    got.push_back(v);
    block = X.and1(block, X.not1(X.eq(e, X.cst(v, 64))));
  }
  if (full) {
    std::sort(got.begin(), got.end());
    out = got;
    return;
  }
  if (write ? count <= 256 : count <= 8192) { direct(); return; }
  uint64_t a = concretizeHere(s, mk(e), 64);
  checkC(s, a, n, write);
  out.push_back(a);
}

static Val loadC(State& s, uint64_t a, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (n <= 8) {
    uint64_t c;
    E e = s.mem.load(a, n, c);
    if (!e) return cv(c & mask64(w));
    if (e->w != w) e = X.trunc(e, w);
    return mk(e);
  }
  uint64_t c0, c1;
  E e0 = s.mem.load(a, 8, c0), e1 = s.mem.load(a + 8, n - 8, c1);
  E r = X.concat(e1 ? e1 : X.cst(c1, (n - 8) * 8), e0 ? e0 : X.cst(c0, 64));
  if (r->w != w) r = X.trunc(r, w);
  return mk(r);
}
static Val loadV(State& s, Val a, unsigned w) {
  unsigned n = (w + 7) / 8;
  S.memOps++;
  if (a.e) { E e = fixE(s, a.e); a = mk(e); }
  if (isC(a)) { checkC(s, a.c, n, false); return loadC(s, a.c, w); }
  std::vector<uint64_t> c;
  resolve(s, a.e, n, false, c);
  if (c.size() == 1) return loadC(s, c[0], w);
  if (a.e->leaves && a.e->leaves <= 256) {
    // an address chosen among constants: load each and keep the choice
    E any = ex(loadC(s, c[0], w), w);
    return mk(fixE(s, X.mapLeaves(a.e, [&](E t) -> E {
      uint64_t x = (uint64_t)t->k;
      return std::find(c.begin(), c.end(), x) == c.end() ? any : ex(loadC(s, x, w), w);
    })));
  }
  std::vector<std::pair<uint64_t, Val>> runs;
  for (uint64_t x : c) {
    Val v = loadC(s, x, w);
    if (!runs.empty() && runs.back().second.e == v.e && runs.back().second.c == v.c) continue;
    runs.push_back({x, v});
  }
  std::function<E(size_t, size_t)> build = [&](size_t l, size_t h) -> E {
    if (h - l == 1) return ex(runs[l].second, w);
    size_t mid = (l + h) / 2;
    return X.ite(X.cmp(Op::Ult, a.e, X.cst(runs[mid].first, 64)), build(l, mid), build(mid, h));
  };
  return mk(fixE(s, build(0, runs.size())));
}
static void storeCV(State& s, uint64_t a, unsigned w, const Val& v) {
  unsigned n = (w + 7) / 8;
  if (isC(v) && n <= 8) { s.mem.storeC(a, n, v.c); return; }
  E e = ex(v, w);
  if (e->w != n * 8) e = X.zext(e, n * 8);
  if (e->isConst() && n <= 8) s.mem.storeC(a, n, (uint64_t)e->k);
  else s.mem.storeE(a, n, e);
}
static void storeV(State& s, Val a, unsigned w, const Val& v) {
  unsigned n = (w + 7) / 8;
  S.memOps++;
  if (a.e) { E e = fixE(s, a.e); a = mk(e); }
  if (isC(a)) { checkC(s, a.c, n, true); storeCV(s, a.c, w, v); return; }
  std::vector<uint64_t> c;
  resolve(s, a.e, n, true, c);
  if (c.size() == 1) { storeCV(s, c[0], w, v); return; }
  E ve = ex(v, w);
  for (uint64_t x : c) {
    Val old = loadC(s, x, w);
    storeCV(s, x, w, mk(X.ite(X.eq(a.e, X.cst(x, 64)), ve, ex(old, w))));
  }
}

struct B1 { uint8_t c; E e; };
static void readBytes(State& s, uint64_t a, uint64_t n, std::vector<B1>& out) {
  out.resize(n);
  for (uint64_t i = 0; i < n;) {
    const Page* p = s.mem.rd((a + i) >> kPgBits);
    uint64_t o = (a + i) & (kPg - 1), l = std::min(n - i, kPg - o);
    for (uint64_t j = 0; j < l; j++) out[i + j] = B1{p->data[o + j], p->nsym ? p->sym[o + j] : nullptr};
    i += l;
  }
}
static void writeBytes(State& s, uint64_t a, const std::vector<B1>& in) {
  for (uint64_t i = 0; i < in.size(); i++) {
    if (in[i].e) s.mem.storeByte(a + i, in[i].e);
    else if (i + 8 <= in.size()) {
      bool ok = true;
      uint64_t v = 0;
      for (int j = 0; j < 8; j++) { if (in[i + j].e) { ok = false; break; } v |= (uint64_t)in[i + j].c << (8 * j); }
      if (ok) { s.mem.storeC(a + i, 8, v); i += 7; } else s.mem.storeC(a + i, 1, in[i].c);
    } else s.mem.storeC(a + i, 1, in[i].c);
  }
}
// A symbolic length spanning a small window: each byte of the window is
// written or kept depending on the length, provided all of it is accessible.
static const uint64_t kWindow = 512;
static bool lenWindow(State& s, Val& len, uint64_t& lo, uint64_t& hi) {
  if (isC(len)) return false;
  E e = fixE(s, len.e);
  if (e->isConst()) { len = cv((uint64_t)e->k); return false; }
  Rng r = rangeOf(s, e);
  if (r.second > (1u << 20) || r.second - r.first > kWindow) return false;
  len = mk(e);
  lo = (uint64_t)r.first; hi = (uint64_t)r.second;
  return true;
}
static bool doCopyWindow(State& s, Val& d, Val& sr, Val& len) {
  uint64_t lo, hi;
  if (!lenWindow(s, len, lo, hi)) return false;
  d = cv(concretizeHere(s, d, 64)); sr = cv(concretizeHere(s, sr, 64));
  if (!lenWindow(s, len, lo, hi)) return false;
  if (!s.mem.isValid(d.c, hi) || !s.mem.isValid(sr.c, hi)) return false;
  std::vector<B1> b, o;
  readBytes(s, sr.c, hi, b);
  readBytes(s, d.c, hi, o);
  for (uint64_t i = lo; i < hi; i++) {
    E nv = b[i].e ? b[i].e : X.cst(b[i].c, 8), ov = o[i].e ? o[i].e : X.cst(o[i].c, 8);
    if (nv == ov) continue;
    E x = X.ite(X.cmp(Op::Ult, X.cst(i, 64), len.e), nv, ov);
    b[i] = x->isConst() ? B1{(uint8_t)x->k, nullptr} : B1{0, x};
  }
  writeBytes(s, d.c, b);
  return true;
}
static bool doSetWindow(State& s, Val& d, Val v, Val& len) {
  uint64_t lo, hi;
  if (!lenWindow(s, len, lo, hi)) return false;
  d = cv(concretizeHere(s, d, 64));
  if (!lenWindow(s, len, lo, hi)) return false;
  if (!s.mem.isValid(d.c, hi)) return false;
  E e = v.e ? X.trunc(v.e, 8) : X.cst(v.c & 0xff, 8);
  std::vector<B1> b;
  readBytes(s, d.c, hi, b);
  for (uint64_t i = 0; i < hi; i++) {
    E x = e;
    if (i >= lo) x = X.ite(X.cmp(Op::Ult, X.cst(i, 64), len.e), e, b[i].e ? b[i].e : X.cst(b[i].c, 8));
    b[i] = x->isConst() ? B1{(uint8_t)x->k, nullptr} : B1{0, x};
  }
  writeBytes(s, d.c, b);
  return true;
}
static void doCopy(State& s, Val d, Val sr, Val len) {
  if (doCopyWindow(s, d, sr, len)) return;
  uint64_t n = concretizeHere(s, len, 64);
  if (!n) return;
  uint64_t da = concretizeHere(s, d, 64), sa = concretizeHere(s, sr, 64);
  checkC(s, sa, n, false);
  checkC(s, da, n, true);
  if (n > (256u << 20)) { incomplete("huge memcpy"); throw PathEnd(); }
  std::vector<B1> b;
  readBytes(s, sa, n, b);
  writeBytes(s, da, b);
}
static void doSet(State& s, Val d, Val v, Val len) {
  if (doSetWindow(s, d, v, len)) return;
  uint64_t n = concretizeHere(s, len, 64);
  if (!n) return;
  uint64_t a = concretizeHere(s, d, 64);
  if (n > (64ull << 30)) memViolation(s, "invalid write (memset)", a, (unsigned)n);
  checkC(s, a, n, true);
  if (isC(v) && (v.c & 0xff) == 0 && n >= 16 * kPg) {
    uint64_t f = (a + kPg - 1) & ~(kPg - 1), l = (a + n) & ~(kPg - 1);
    s.mem.drop(f, l - f);
    s.mem.lazyAdd(f >> kPgBits, l >> kPgBits);
    for (uint64_t i = a; i < f; i++) s.mem.storeC(i, 1, 0);
    for (uint64_t i = l; i < a + n; i++) s.mem.storeC(i, 1, 0);
    return;
  }
  E e = v.e ? X.trunc(v.e, 8) : nullptr;
  if (e && e->isConst()) { v = cv((uint64_t)e->k); e = nullptr; }
  if (e) for (uint64_t i = 0; i < n; i++) s.mem.storeByte(a + i, e);
  else {
    uint64_t p8 = (v.c & 0xff) * 0x0101010101010101ull, i = 0;
    for (; i + 8 <= n; i += 8) s.mem.storeC(a + i, 8, p8);
    for (; i < n; i++) s.mem.storeC(a + i, 1, v.c & 0xff);
  }
}
static uint64_t heapAlloc(State& s, uint64_t n, uint64_t align) {
  if (align < 16) align = 16;
  uint64_t a = (s.heap + 32 + align - 1) & ~(align - 1);
  s.heap = a + n;
  if (n) s.mem.setValid(a, n, true);
  s.blocks[a] = n;
  return a;
}
static std::string readStr(State& s, uint64_t a) {
  std::string r;
  while (r.size() < 200 && s.mem.isValid(a, 1)) {
    uint64_t c;
    E e = s.mem.load(a, 1, c);
    if (e) { r += '?'; a++; continue; }
    if (!c) break;
    r += (char)c;
    a++;
  }
  return r;
}

// ------------------------------------------------------------ reports
static std::string jsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
struct Report { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::tuple<std::string, unsigned, uint64_t>> inputs; };
static std::vector<Report> reports;

static std::string prettyOf(FuncInfo* f) { return f->pretty; }
static void backtrace(State& s, std::vector<std::string>& out) {
  Thread& t = s.th[s.cur];
  for (size_t i = t.st.size(); i-- > 0 && out.size() < 24;) {
    Frame& f = t.st[i];
    std::string r = prettyOf(f.f);
    if (f.pc < f.f->insts.size())
      if (auto* I = f.f->insts[f.pc].I)
        if (DebugLoc dl = I->getDebugLoc()) r += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")";
    out.push_back(r);
  }
}
static void printWhere() {
  if (!curState) return;
  std::vector<std::string> bt; backtrace(*curState, bt);
  for (size_t i = 0; i < bt.size() && i < 4; i++) fprintf(stderr, "    %s\n", bt[i].c_str());
}
static std::vector<std::tuple<std::string, unsigned, uint64_t>> inputsOf(State& s) {
  std::vector<std::tuple<std::string, unsigned, uint64_t>> r;
  for (auto& in : s.inputs) r.push_back({inputNames[in.nameId], in.w, (uint64_t)X.eval(in.v, s.model)});
  return r;
}
static void report(State& s, const std::string& kind, const std::string& msg) {
  Report r;
  r.kind = kind; r.msg = msg;
  backtrace(s, r.stack);
  r.inputs = inputsOf(s);
  std::string sig = kind + "|" + msg;
  for (auto& q : reports) if (q.kind + "|" + q.msg == sig && (q.stack.empty() ? "" : q.stack[0]) == (r.stack.empty() ? "" : r.stack[0])) return;
  reports.push_back(r);
  fprintf(stderr, "VIOLATION-CANDIDATE %s: %s\n", kind.c_str(), msg.c_str());
  for (auto& l : r.stack) fprintf(stderr, "    at %s\n", l.c_str());
  for (auto& i : r.inputs) fprintf(stderr, "    %s = %llu (0x%llx)\n", std::get<0>(i).c_str(), (unsigned long long)std::get<2>(i), (unsigned long long)std::get<2>(i));
  if (!opt.keepGoing) throw Stop();
}

// ------------------------------------------------------------ frames
static void decode(FuncInfo*);
static void pushFrame(State& s, Thread& t, FuncInfo* f, const std::vector<Val>& args, int retDst, uint32_t retEdge, int mergeId = 0) {
  if (!f->decoded) decode(f);
  f->covered = true;
  t.st.emplace_back();
  Frame& n = t.st.back();
  n.f = f; n.pc = 0; n.retDst = retDst; n.retEdge = retEdge; n.spSave = t.sp; n.mergeId = mergeId;
  n.r.resize(f->nSlots);
  for (unsigned i = 0; i < f->nFixed && i < args.size(); i++) n.r[f->argSlots[i]] = args[i];
  if (f->F->isVarArg()) {
    uint64_t m = args.size() > f->nFixed ? args.size() - f->nFixed : 0;
    t.sp = (t.sp - m * 8 - 16) & ~15ull;
    s.mem.setValid(t.sp, m * 8 + 16, true);
    for (uint64_t i = 0; i < m; i++) {
      const Val& v = args[f->nFixed + i];
      storeCV(s, t.sp + i * 8, v.e ? v.e->w : 64, v);
    }
    n.vaArea = t.sp;
  }
  if (t.st.size() > 2000) throw Violation{"stack", "call depth exceeds 2000"};
}
static void takeEdge(Frame& f, uint32_t e) {
  const Edge& ed = f.f->edges[e];
  size_t n = ed.copies.size();
  if (n == 1) f.r[ed.copies[0].first] = reg(f, ed.copies[0].second);
  else if (n) {
    Val tmp[16];
    if (n <= 16) {
      for (size_t i = 0; i < n; i++) tmp[i] = reg(f, ed.copies[i].second);
      for (size_t i = 0; i < n; i++) f.r[ed.copies[i].first] = tmp[i];
    } else {
      std::vector<Val> v(n);
      for (size_t i = 0; i < n; i++) v[i] = reg(f, ed.copies[i].second);
      for (size_t i = 0; i < n; i++) f.r[ed.copies[i].first] = v[i];
    }
  }
  f.pc = ed.target;
}

// ------------------------------------------------------------ threads
static unsigned liveThreads(State& s) { unsigned n = 0; for (auto& t : s.th) if (!t.done) n++; return n; }
static bool runnable(State& s, unsigned i) { Thread& t = s.th[i]; return !t.done && !t.blocked && !t.joining; }
// Forks over the threads in opts; s continues with opts[0].
static void chooseThread(State& s, const std::vector<unsigned>& opts, bool preempt) {
  S.schedPoints++;
  unsigned was = s.cur;
  // The choice is an input, so that a counterexample fixes the schedule.
  for (size_t i = opts.size(); i-- > 0;) {
    State* n = i ? forkState(s) : &s;
    E v = newInput(*n, "sched", 8, opts[i]);
    addPC(*n, X.eq(v, X.cst(opts[i], 8)));
    if (n->model.v[v->aux] != opts[i]) { n->model.v[v->aux] = opts[i]; n->model.id = ++modelCounter; }
    if (preempt && opts[i] != was) n->preempts++;
    n->cur = opts[i];
    n->th[opts[i]].schedDone = true;
    if (i) work->push_back(n);
  }
}
static void schedPoint(State& s) {
  if (s.th.size() < 2 || s.atomicRegion) return;
  Thread& t = s.th[s.cur];
  if (t.schedDone) { t.schedDone = false; return; }
  std::vector<unsigned> o{s.cur};
  if ((int)s.preempts < opt.maxPreempt)
    for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur && runnable(s, i)) o.push_back(i);
  if (o.size() == 1) return;
  chooseThread(s, o, true);
  throw kNever;   // re-dispatch with the chosen thread
}
static void switchAway(State& s) {   // current thread cannot continue
  std::vector<unsigned> o;
  for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur && runnable(s, i)) o.push_back(i);
  if (o.empty()) {
    bool others = false;
    for (unsigned i = 0; i < s.th.size(); i++) if (!s.th[i].done && !s.th[i].joining) others = true;
    if (!others) for (unsigned i = 0; i < s.th.size(); i++) if (s.th[i].joining && !s.th[i].done) { s.th[i].joining = false; s.cur = i; return; }
    throw Violation{"deadlock", "no thread can make progress"};
  }
  chooseThread(s, o, false);
}
static void wroteAtomic(State& s) {
  if (s.th.size() < 2) return;
  for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur) s.th[i].blocked = false;
}

// ------------------------------------------------------------ arithmetic
static Val doBin(State& s, unsigned op, unsigned w, const Val& a, const Val& b) {
  if (w <= 64 && isC(a) && isC(b)) {
    uint64_t x = a.c, y = b.c, r = 0, m = mask64(w);
    switch (op) {
      case Instruction::Add: r = x + y; break;
      case Instruction::Sub: r = x - y; break;
      case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: if (!y) throw Violation{"arith", "division by zero"}; r = x / y; break;
      case Instruction::URem: if (!y) throw Violation{"arith", "division by zero"}; r = x % y; break;
      case Instruction::SDiv: { if (!y) throw Violation{"arith", "division by zero"}; int64_t p = sext64(x, w), q = sext64(y, w); r = q == -1 ? 0 - (uint64_t)p : (uint64_t)(p / q); break; }
      case Instruction::SRem: { if (!y) throw Violation{"arith", "division by zero"}; int64_t p = sext64(x, w), q = sext64(y, w); r = q == -1 ? 0 : (uint64_t)(p % q); break; }
      case Instruction::And: r = x & y; break;
      case Instruction::Or: r = x | y; break;
      case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break;
      case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
      case Instruction::AShr: r = (uint64_t)(sext64(x, w) >> (y >= w ? w - 1 : y)); break;
      case Instruction::FAdd: r = (uint64_t)foldOp(Op::FAdd, w, 0, w, x, y, 0, w); break;
      case Instruction::FSub: r = (uint64_t)foldOp(Op::FSub, w, 0, w, x, y, 0, w); break;
      case Instruction::FMul: r = (uint64_t)foldOp(Op::FMul, w, 0, w, x, y, 0, w); break;
      case Instruction::FDiv: r = (uint64_t)foldOp(Op::FDiv, w, 0, w, x, y, 0, w); break;
      case Instruction::FRem: r = (uint64_t)foldOp(Op::FRem, w, 0, w, x, y, 0, w); break;
    }
    return cv(r & m);
  }
  E x = ex(a, w), y = ex(b, w);
  switch (op) {
    case Instruction::Add: return mk(X.bin(Op::Add, x, y));
    case Instruction::Sub: return mk(X.bin(Op::Sub, x, y));
    case Instruction::Mul: return mk(X.bin(Op::Mul, x, y));
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      E z = X.eq(y, X.cst(0, w));
      if (!z->isConst() || z->k) {
        Model m;
        int r = mayBeTrue(s, z, &m);
        if (r == 1) { s.model = m; addPC(s, z); throw Violation{"arith", "division by zero"}; }
      }
      Op o = op == Instruction::UDiv ? Op::UDiv : op == Instruction::URem ? Op::URem : op == Instruction::SDiv ? Op::SDiv : Op::SRem;
      return mk(X.bin(o, x, y));
    }
    case Instruction::And: return mk(X.bin(Op::And, x, y));
    case Instruction::Or: return mk(X.bin(Op::Or, x, y));
    case Instruction::Xor: return mk(X.bin(Op::Xor, x, y));
    case Instruction::Shl: return mk(X.bin(Op::Shl, x, y));
    case Instruction::LShr: return mk(X.bin(Op::LShr, x, y));
    case Instruction::AShr: return mk(X.bin(Op::AShr, x, y));
    case Instruction::FAdd: return mk(X.fop(Op::FAdd, w, 0, x, y));
    case Instruction::FSub: return mk(X.fop(Op::FSub, w, 0, x, y));
    case Instruction::FMul: return mk(X.fop(Op::FMul, w, 0, x, y));
    case Instruction::FDiv: return mk(X.fop(Op::FDiv, w, 0, x, y));
    case Instruction::FRem: return mk(X.fop(Op::FRem, w, 0, x, y));
  }
  incomplete("binary operator");
  throw PathEnd();
}
static Val doCmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  if (w <= 64 && isC(a) && isC(b)) {
    uint64_t x = a.c, y = b.c;
    int64_t p1 = sext64(x, w), q1 = sext64(y, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return cv(x == y);
      case CmpInst::ICMP_NE: return cv(x != y);
      case CmpInst::ICMP_ULT: return cv(x < y);
      case CmpInst::ICMP_ULE: return cv(x <= y);
      case CmpInst::ICMP_UGT: return cv(x > y);
      case CmpInst::ICMP_UGE: return cv(x >= y);
      case CmpInst::ICMP_SLT: return cv(p1 < q1);
      case CmpInst::ICMP_SLE: return cv(p1 <= q1);
      case CmpInst::ICMP_SGT: return cv(p1 > q1);
      case CmpInst::ICMP_SGE: return cv(p1 >= q1);
    }
  }
  E x = ex(a, w), y = ex(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return mk(X.eq(x, y));
    case CmpInst::ICMP_NE: return mk(X.not1(X.eq(x, y)));
    case CmpInst::ICMP_ULT: return mk(X.cmp(Op::Ult, x, y));
    case CmpInst::ICMP_ULE: return mk(X.cmp(Op::Ule, x, y));
    case CmpInst::ICMP_UGT: return mk(X.cmp(Op::Ult, y, x));
    case CmpInst::ICMP_UGE: return mk(X.cmp(Op::Ule, y, x));
    case CmpInst::ICMP_SLT: return mk(X.cmp(Op::Slt, x, y));
    case CmpInst::ICMP_SLE: return mk(X.cmp(Op::Sle, x, y));
    case CmpInst::ICMP_SGT: return mk(X.cmp(Op::Slt, y, x));
    case CmpInst::ICMP_SGE: return mk(X.cmp(Op::Sle, y, x));
  }
  incomplete("icmp");
  throw PathEnd();
}
static Val doFCmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  if (p == CmpInst::FCMP_FALSE) return cv(0);
  if (p == CmpInst::FCMP_TRUE) return cv(1);
  return mk(X.fop(Op::FCmp, 1, p, ex(a, w), ex(b, w)));
}
static Val doCast(unsigned op, unsigned ws, unsigned wd, const Val& a) {
  if (isC(a) && ws <= 64 && wd <= 64) {
    switch (op) {
      case Instruction::ZExt: return a;
      case Instruction::Trunc: return cv(a.c & mask64(wd));
      case Instruction::PtrToInt: case Instruction::IntToPtr: return cv(a.c & mask64(wd));
      case Instruction::SExt: return cv((uint64_t)sext64(a.c, ws) & mask64(wd));
    }
  }
  E x = ex(a, ws);
  switch (op) {
    case Instruction::ZExt: return mk(X.zext(x, wd));
    case Instruction::Trunc: return mk(X.trunc(x, wd));
    case Instruction::SExt: return mk(X.sext(x, wd));
    case Instruction::PtrToInt: case Instruction::IntToPtr: return mk(wd == ws ? x : wd < ws ? X.trunc(x, wd) : X.zext(x, wd));
    case Instruction::FPToSI: return mk(X.fop(Op::FToSI, wd, 0, x));
    case Instruction::FPToUI: return mk(X.fop(Op::FToUI, wd, 0, x));
    case Instruction::SIToFP: return mk(X.fop(Op::SIToF, wd, 0, x));
    case Instruction::UIToFP: return mk(X.fop(Op::UIToF, wd, 0, x));
    case Instruction::FPExt: case Instruction::FPTrunc: return mk(X.fop(Op::FToF, wd, 0, x));
  }
  incomplete("cast");
  throw PathEnd();
}
static E bitE(E x, unsigned i) { return X.extract(x, i, 1); }
static Val doCttz(const Val& a, unsigned w, bool lead) {
  if (isC(a)) {
    if (!a.c) return cv(w);
    if (lead) return cv(__builtin_clzll(a.c) - (64 - w));
    return cv(__builtin_ctzll(a.c));
  }
  E r = X.cst(w, w);
  for (unsigned i = 0; i < w; i++) {
    unsigned bit = lead ? i : w - 1 - i;            // last one considered wins
    r = X.ite(bitE(a.e, bit), X.cst(lead ? w - 1 - bit : bit, w), r);
  }
  return mk(r);
}
static Val doPop(const Val& a, unsigned w) {
  if (isC(a)) return cv(__builtin_popcountll(a.c));
  std::vector<E> v;
  unsigned k = 7;
  for (unsigned i = 0; i < w; i++) { E b = bitE(a.e, i); v.push_back(b); }
  // balanced adder tree with growing width
  std::vector<E> cur;
  for (E b : v) cur.push_back(b);
  unsigned cw = 1;
  while (cur.size() > 1) {
    std::vector<E> nx;
    for (size_t i = 0; i + 1 < cur.size(); i += 2) nx.push_back(X.bin(Op::Add, X.zext(cur[i], cw + 1), X.zext(cur[i + 1], cw + 1)));
    if (cur.size() & 1) nx.push_back(X.zext(cur.back(), cw + 1));
    cur.swap(nx);
    cw++;
  }
  (void)k;
  E r = cur[0];
  if (r->w < w) r = X.zext(r, w); else if (r->w > w) r = X.trunc(r, w);
  return mk(r);
}

// ------------------------------------------------------------ calls
static State* explore(State* init, int mergeId, std::vector<State*>* collected);
static State* mergeStates(std::vector<State*>& v, size_t pcBase);
static int mergeCounter = 0;

static void setRet(Frame& f, const Inst& I, const Val& v) { if (I.dst >= 0 && I.n) f.r[I.dst] = v; }
static void crash(State& s, const std::string& what) {
  if (s.expectCrash) throw Violation{"expected", what};
  throw Violation{"crash", what};
}

static bool doIntrinsic(State& s, Frame& f, const Inst& I, const CallInfo& ci, std::vector<Val>& a) {
  auto ret = [&](const Val& v) { f.r[I.dst] = v; };
  unsigned w = I.w;
  switch (ci.intrinsic) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCopy(s, a[0], a[1], a[2]); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: doSet(s, a[0], a[1], a[2]); return true;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      bool sg = ci.intrinsic == Intrinsic::smax || ci.intrinsic == Intrinsic::smin, mx = ci.intrinsic == Intrinsic::umax || ci.intrinsic == Intrinsic::smax;
      if (I.n != 1) break;
      Val c = doCmp(sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, w, a[0], a[1]);
      if (isC(c)) ret((c.c != 0) == mx ? a[1] : a[0]);
      else ret(mk(mx ? X.ite(c.e, ex(a[1], w), ex(a[0], w)) : X.ite(c.e, ex(a[0], w), ex(a[1], w))));
      return true;
    }
    case Intrinsic::abs: {
      if (I.n != 1) break;
      E x = ex(a[0], w);
      ret(mk(X.ite(X.cmp(Op::Slt, x, X.cst(0, w)), X.bin(Op::Sub, X.cst(0, w), x), x)));
      return true;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: if (w > 64 || I.n != 1) break; ret(doCttz(a[0], w, ci.intrinsic == Intrinsic::ctlz)); return true;
    case Intrinsic::ctpop:
      if (w > 64) { if (I.n != 1) break; E x = ex(a[0], w); ret(mk(X.zext(X.bin(Op::Add, ex(doPop(mk(X.extract(x, 0, 64)), 64), 64), ex(doPop(mk(X.extract(x, 64, w - 64)), w - 64), w - 64)->w == 64 ? ex(doPop(mk(X.extract(x, 64, w - 64)), w - 64), 64) : X.zext(ex(doPop(mk(X.extract(x, 64, w - 64)), w - 64), w - 64), 64)), w))); return true; }
      if (I.n != 1) break;
      ret(doPop(a[0], w)); return true;
    case Intrinsic::bswap: {
      if (I.n != 1) break;
      E x = ex(a[0], w), r = X.extract(x, 0, 8);
      for (unsigned i = 1; i < w / 8; i++) r = X.concat(r, X.extract(x, 8 * i, 8));
      ret(mk(r)); return true;
    }
    case Intrinsic::bitreverse: {
      E x = ex(a[0], w), r = X.extract(x, 0, 1);
      for (unsigned i = 1; i < w; i++) r = X.concat(r, X.extract(x, i, 1));
      ret(mk(r)); return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      if (I.n != 1) break;
      E x = ex(a[0], w), y = ex(a[1], w), k = ex(a[2], w);
      E m = X.bin(Op::URem, k, X.cst(w, w));
      if (ci.intrinsic == Intrinsic::fshl) {
        E r = X.bin(Op::Or, X.bin(Op::Shl, x, m), X.bin(Op::LShr, y, X.bin(Op::Sub, X.cst(w, w), m)));
        ret(mk(X.ite(X.eq(m, X.cst(0, w)), x, r)));
      } else {
        E r = X.bin(Op::Or, X.bin(Op::LShr, y, m), X.bin(Op::Shl, x, X.bin(Op::Sub, X.cst(w, w), m)));
        ret(mk(X.ite(X.eq(m, X.cst(0, w)), y, r)));
      }
      return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ww = ci.argW[0];
      E x = ex(a[0], ww), y = ex(a[1], ww);
      bool sg = ci.intrinsic == Intrinsic::sadd_with_overflow || ci.intrinsic == Intrinsic::ssub_with_overflow || ci.intrinsic == Intrinsic::smul_with_overflow;
      Op o = (ci.intrinsic == Intrinsic::uadd_with_overflow || ci.intrinsic == Intrinsic::sadd_with_overflow) ? Op::Add : (ci.intrinsic == Intrinsic::umul_with_overflow || ci.intrinsic == Intrinsic::smul_with_overflow) ? Op::Mul : Op::Sub;
      E r = X.bin(o, x, y), ov;
      if (!sg && o == Op::Add) ov = X.cmp(Op::Ult, r, x);
      else if (!sg && o == Op::Sub) ov = X.cmp(Op::Ult, x, y);
      else if (!sg && o == Op::Mul && y->isConst() && y->k) ov = X.cmp(Op::Ult, X.cst(maskW(ww) / y->k, ww), x);
      else if (!sg && o == Op::Mul && x->isConst() && x->k) ov = X.cmp(Op::Ult, X.cst(maskW(ww) / x->k, ww), y);
      else {
        unsigned W2 = std::min(128u, o == Op::Mul ? 2 * ww : ww + 1);
        E X2 = sg ? X.sext(x, W2) : X.zext(x, W2), Y2 = sg ? X.sext(y, W2) : X.zext(y, W2);
        E full = X.bin(o, X2, Y2);
        ov = X.not1(X.eq(full, sg ? X.sext(r, W2) : X.zext(r, W2)));
      }
      f.r[I.dst] = mk(r);
      f.r[I.dst + 1] = mk(ov);
      return true;
    }
    case Intrinsic::uadd_sat: { E x = ex(a[0], w), y = ex(a[1], w), r = X.bin(Op::Add, x, y); ret(mk(X.ite(X.cmp(Op::Ult, r, x), X.cst(~(u128)0, w), r))); return true; }
    case Intrinsic::usub_sat: { E x = ex(a[0], w), y = ex(a[1], w); ret(mk(X.ite(X.cmp(Op::Ult, x, y), X.cst(0, w), X.bin(Op::Sub, x, y)))); return true; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
      ret(a[0]); return true;
    case Intrinsic::ptrmask: { ret(doBin(s, Instruction::And, 64, a[0], a[1])); return true; }
    case Intrinsic::assume: case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::annotation: case Intrinsic::var_annotation: case Intrinsic::vaend: return true;
    case Intrinsic::objectsize: ret(cv(isC(a[1]) && a[1].c ? 0 : mask64(w))); return true;
    case Intrinsic::is_constant: ret(cv(0)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: crash(s, "trap"); return true;
    case Intrinsic::stacksave: ret(cv(s.th[s.cur].sp)); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::returnaddress: case Intrinsic::frameaddress: case Intrinsic::addressofreturnaddress: ret(cv(0)); return true;
    case Intrinsic::readcyclecounter: ret(mk(newInput(s, "rdtsc", 64))); return true;
    case Intrinsic::vastart: {
      uint64_t p = concretizeHere(s, a[0], 64);
      checkC(s, p, 24, true);
      s.mem.storeC(p, 4, 48); s.mem.storeC(p + 4, 4, 304);
      s.mem.storeC(p + 8, 8, f.vaArea); s.mem.storeC(p + 16, 8, 0);
      return true;
    }
    case Intrinsic::vacopy: doCopy(s, a[0], a[1], cv(24)); return true;
    case Intrinsic::threadlocal_address: {
      auto* gv = dyn_cast<GlobalVariable>(cast<CallBase>(I.I)->getArgOperand(0)->stripPointerCasts());
      Thread& t = s.th[s.cur];
      if (s.cur == 0 || !gv) { ret(a[0]); return true; }
      auto it = t.tls.find(gv);
      if (it == t.tls.end()) {
        uint64_t n = DL->getTypeAllocSize(gv->getValueType());
        uint64_t p = heapAlloc(s, n, std::max<uint64_t>(16, gv->getAlign().valueOrOne().value()));
        if (gv->hasInitializer()) initGlobal(s.mem, p, gv->getInitializer());
        it = t.tls.emplace(gv, p).first;
      }
      ret(cv(it->second)); return true;
    }
    case Intrinsic::fabs: { E x = ex(a[0], w); ret(mk(X.bin(Op::And, x, X.cst(maskW(w) >> 1, w)))); return true; }
    case Intrinsic::copysign: { E x = ex(a[0], w), y = ex(a[1], w), sm = X.cst((u128)1 << (w - 1), w); ret(mk(X.bin(Op::Or, X.bin(Op::And, x, X.cst(maskW(w) >> 1, w)), X.bin(Op::And, y, sm)))); return true; }
    case Intrinsic::floor: ret(mk(X.fop(Op::FRound, w, 0, ex(a[0], w)))); return true;
    case Intrinsic::ceil: ret(mk(X.fop(Op::FRound, w, 1, ex(a[0], w)))); return true;
    case Intrinsic::trunc: ret(mk(X.fop(Op::FRound, w, 2, ex(a[0], w)))); return true;
    case Intrinsic::round: ret(mk(X.fop(Op::FRound, w, 3, ex(a[0], w)))); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret(mk(X.fop(Op::FRound, w, 4, ex(a[0], w)))); return true;
    case Intrinsic::lround: case Intrinsic::llround: ret(mk(X.fop(Op::FToSI, w, 0, X.fop(Op::FRound, ci.argW[0], 3, ex(a[0], ci.argW[0]))))); return true;
    case Intrinsic::sqrt: ret(mk(X.fop(Op::FSqrt, w, 0, ex(a[0], w)))); return true;
    case Intrinsic::fmuladd: case Intrinsic::fma: ret(mk(X.fop(Op::FAdd, w, 0, X.fop(Op::FMul, w, 0, ex(a[0], w), ex(a[1], w)), ex(a[2], w)))); return true;
    case Intrinsic::minnum: case Intrinsic::maxnum: {
      E x = ex(a[0], w), y = ex(a[1], w);
      E c = X.fop(Op::FCmp, 1, ci.intrinsic == Intrinsic::minnum ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, x, y);
      ret(mk(X.ite(c, x, y))); return true;
    }
    case Intrinsic::log: ret(mk(X.fop(Op::FFun, w, 0, ex(a[0], w)))); return true;
    case Intrinsic::log2: ret(mk(X.fop(Op::FFun, w, 1, ex(a[0], w)))); return true;
    case Intrinsic::exp: ret(mk(X.fop(Op::FFun, w, 2, ex(a[0], w)))); return true;
    case Intrinsic::exp2: ret(mk(X.fop(Op::FFun, w, 5, ex(a[0], w)))); return true;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
      unsigned o = ci.intrinsic == Intrinsic::vector_reduce_add ? Instruction::Add : ci.intrinsic == Intrinsic::vector_reduce_or ? Instruction::Or : ci.intrinsic == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Xor;
      Val r = a[0];
      for (size_t i = 1; i < a.size(); i++) r = doBin(s, o, w, r, a[i]);
      ret(r); return true;
    }
    default: break;
  }
  incomplete("intrinsic " + ci.F->getName().str());
  throw PathEnd();
}

static void doAssume(State& s, const Val& c) {
  E e = ex(c, c.e ? c.e->w : 32);
  E b = e->w == 1 ? e : X.not1(X.eq(e, X.cst(0, e->w)));
  if (b->isConst()) { if (!b->k) { S.killed++; throw PathEnd(); } return; }
  Model m;
  int r = mayBeTrue(s, b, &m);
  if (r != 1) { S.killed++; throw PathEnd(); }
  s.model = m;
  addPC(s, b);
}
static std::map<std::string, uint64_t> assertSites;

// Returns true when control moved (the caller must not advance pc).
static bool doBuiltin(State& s, Thread& t, Frame& f, const Inst& I, const CallInfo& ci, int bi, std::vector<Val>& a) {
  const BuiltinDef& bd = kBuiltins[bi];
  auto ret = [&](const Val& v) { setRet(f, I, v); };
  auto str = [&](unsigned i) { return readStr(s, concretizeHere(s, a[i], 64)); };
  switch (bd.id) {
    case B_u8: ret(mk(newInput(s, str(0), 8))); return false;
    case B_u16: ret(mk(newInput(s, str(0), 16))); return false;
    case B_u32: ret(mk(newInput(s, str(0), 32))); return false;
    case B_u64: ret(mk(newInput(s, str(0), 64))); return false;
    case B_range: {
      uint64_t lo = concretizeHere(s, a[1], 64), hi = concretizeHere(s, a[2], 64);
      std::string nm = str(0);
      if (lo > hi) { S.killed++; throw PathEnd(); }
      // width-minimal variable zero-extended, so that ranges are known a priori
      unsigned w = 64;
      uint64_t span = hi - lo;
      unsigned bits = span ? 64 - __builtin_clzll(span) : 1;
      (void)w;
      E v = newInput(s, nm, 64, lo);   // the value as reported and replayed
      if (span == 0) { addPC(s, X.eq(v, X.cst(lo, 64))); ret(cv(lo)); return false; }
      // v = lo + k with k < 2^bits: use the extract form for known-zero bits
      if (bits < 64) {
        if (lo == 0) {
          addPC(s, X.eq(X.extract(v, bits, 64 - bits), X.cst(0, 64 - bits)));
          E k = X.zext(X.extract(v, 0, bits), 64);
          if (span != mask64(bits)) addPC(s, X.cmp(Op::Ule, k, X.cst(span, 64)));
          ret(mk(k)); return false;
        }
        addPC(s, X.cmp(Op::Ule, X.cst(lo, 64), v));
        addPC(s, X.cmp(Op::Ule, v, X.cst(hi, 64)));
        unsigned hb = 64 - __builtin_clzll(hi);
        if (hb < 64) { addPC(s, X.eq(X.extract(v, hb, 64 - hb), X.cst(0, 64 - hb))); ret(mk(X.zext(X.extract(v, 0, hb), 64))); return false; }
      } else if (!(lo == 0 && hi == ~0ull)) {
        addPC(s, X.cmp(Op::Ule, X.cst(lo, 64), v));
        addPC(s, X.cmp(Op::Ule, v, X.cst(hi, 64)));
      }
      ret(mk(v)); return false;
    }
    case B_symbolic: {
      uint64_t p = concretizeHere(s, a[0], 64), n = concretizeHere(s, a[1], 64);
      std::string nm = str(2);
      checkC(s, p, n, true);
      for (uint64_t i = 0; i < n; i++) s.mem.storeByte(p + i, newInput(s, nm, 8));
      return false;
    }
    case B_assume: doAssume(s, a[0]); return false;
    case B_assert: {
      S.asserts++;
      const Val& c = a[0];
      unsigned w = ci.argW[0];
      E e = ex(c, w);
      E b = w == 1 ? e : X.not1(X.eq(e, X.cst(0, w)));
      std::string msg = str(1);
      assertSites[msg]++;
      if (b->isConst()) { if (!b->k) throw Violation{"assert", msg}; return false; }
      S.assertQueries++;
      Model m;
      int r = mayBeTrue(s, X.not1(b), &m);
      if (r == 1) {
        State* n = nullptr;
        if (opt.keepGoing) {
          Model m2;
          if (mayBeTrue(s, b, &m2) == 1) { n = forkState(s); n->model = m2; addPC(*n, b); n->th[n->cur].st.back().pc++; work->push_back(n); }
        }
        s.model = m;
        addPC(s, X.not1(b));
        throw Violation{"assert", msg};
      }
      return false;
    }
    case B_reach: S.reach[str(0)]++; return false;
    case B_note: if (opt.verbose) fprintf(stderr, "note %s %llu %s\n", str(0).c_str(), (unsigned long long)a[1].c, a[1].e ? exprStr(a[1].e, 4).c_str() : ""); return false;
    case B_observe: s.obs.push_back({0, ex(a[0], 64)}); return false;
    case B_concretize: { uint64_t v = concretizeHere(s, a[0], 64); ret(cv(v)); return false; }
    case B_choice: {
      uint64_t n = concretizeHere(s, a[0], 64);
      std::string nm = str(1);
      if (!n) { S.killed++; throw PathEnd(); }
      // fork over all n values without solver queries
      f.pc++;
      for (uint64_t i = n; i-- > 0;) {
        State* q = i ? forkState(s) : &s;
        E v = newInput(*q, nm, 64, i);
        addPC(*q, X.eq(v, X.cst(i, 64)));
        if (q->model.v[v->aux] != i) { q->model.v[v->aux] = i; q->model.id = ++modelCounter; }
        Frame& qf = q->th[q->cur].st.back();
        if (I.dst >= 0 && I.n) qf.r[I.dst] = cv(i);
        if (i) work->push_back(q);
      }
      return true;
    }
    case B_param: { uint64_t i = a[0].c; ret(cv(i < opt.params.size() ? (uint64_t)opt.params[i] : 0)); return false; }
    case B_map: { uint64_t p = concretizeHere(s, a[0], 64), n = concretizeHere(s, a[1], 64); s.mem.drop(p, n); s.mem.setValid(p, n, true); return false; }
    case B_unmap: { uint64_t p = concretizeHere(s, a[0], 64), n = concretizeHere(s, a[1], 64); s.mem.setValid(p, n, false); s.mem.drop(p, n); return false; }
    case B_is_mapped: { uint64_t p = concretizeHere(s, a[0], 64), n = concretizeHere(s, a[1], 64); ret(cv(s.mem.isValid(p, n))); return false; }
    case B_is_symbolic: ret(cv(a[0].e != nullptr)); return false;
    case B_native: ret(cv(0)); return false;
    case B_atomic_region: s.atomicRegion += (int)a[0].c ? 1 : -1; return false;
    case B_expect_crash: { Val v = a[0]; if (v.e && v.e->w > 1) v = mk(X.not1(X.eq(v.e, X.cst(0, v.e->w)))); s.expectCrash = (int)concretizeHere(s, v, 1); return false; }
    case B_end_path: throw PathEnd();
    case B_crash: crash(s, std::string("call to ") + (ci.F ? ci.F->getName().str() : bd.name)); return false;
    case B_nop: ret(cv(0)); return false;
    case B_vformat: ret(cv(0)); return false;
    case B_merge: {
      uint64_t fn = a[0].c;
      auto it = funcAt.find(fn);
      if (it == funcAt.end()) { incomplete("verif_merge target"); throw PathEnd(); }
      int id = ++mergeCounter;
      f.pc++;
      // run the callee to completion on a private work list
      size_t pcBase = s.pc.size();
      int dst = I.n ? I.dst : -1;
      State* c = new State(s);
      s.mem.flush();
      pushFrame(*c, c->th[c->cur], it->second, {a[1]}, dst, ~0u, id);
      std::vector<State*> ends;
      std::vector<State*>* saved = work;
      explore(c, id, &ends);
      work = saved;
      S.merges++;
      // group by everything that cannot be merged, then merge each group
      std::map<std::string, std::vector<State*>> groups;
      for (State* e : ends) {
        std::string key = std::to_string(e->expectCrash) + "/" + std::to_string(e->atomicRegion) + "/" + std::to_string(e->obs.size());
        groups[key].push_back(e);
      }
      for (auto& g : groups) {
        std::vector<State*> rest = g.second;
        while (!rest.empty()) {
          State* m = mergeStates(rest, pcBase);
          work->push_back(m);
        }
      }
      throw PathEnd();
    }
    case B_thread: {
      auto it = funcAt.find(a[0].c);
      if (it == funcAt.end()) { incomplete("verif_thread target"); throw PathEnd(); }
      f.pc++;
      unsigned id = s.th.size();
      if (I.dst >= 0 && I.n) f.r[I.dst] = cv(id);
      Val arg = a[1];
      s.th.emplace_back();
      Thread& nt = s.th.back();
      nt.sp = kStackBase + (id + 1) * kStackSize - 4096;
      pushFrame(s, nt, it->second, {arg}, -1, ~0u);
      return true;
    }
    case B_join_all: {
      if (liveThreads(s) <= 1) return false;
      f.pc++;
      t.joining = true;
      switchAway(s);
      return true;
    }
    case B_spin_wait:
      if (s.th.size() < 2) throw Violation{"deadlock", "lock already held by the only thread"};
      f.pc++;
      t.blocked = true;
      switchAway(s);
      return true;
    case B_yield: {
      if (s.th.size() < 2) return false;
      f.pc++;
      std::vector<unsigned> o{s.cur};
      for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur && runnable(s, i)) o.push_back(i);
      if (o.size() > 1) chooseThread(s, o, false);
      return true;
    }
    case B_cur_thread: ret(cv(s.cur)); return false;
    case B_malloc: { uint64_t n = concretizeHere(s, a[0], 64); ret(cv(heapAlloc(s, n, 16))); return false; }
    case B_memalign: { uint64_t n = concretizeHere(s, a[0], 64), al = concretizeHere(s, a[1], 64); ret(cv(heapAlloc(s, n, al))); return false; }
    case B_calloc: { uint64_t n = concretizeHere(s, a[0], 64) * concretizeHere(s, a[1], 64); ret(cv(heapAlloc(s, n, 16))); return false; }
    case B_realloc: {
      uint64_t p = concretizeHere(s, a[0], 64), n = concretizeHere(s, a[1], 64);
      uint64_t q = heapAlloc(s, n, 16);
      if (p) {
        auto it = s.blocks.find(p);
        if (it == s.blocks.end()) throw Violation{"memory", "realloc of a pointer that was not allocated"};
        doCopy(s, cv(q), cv(p), cv(std::min(n, it->second)));
        s.mem.setValid(p, it->second, false);
        s.blocks.erase(it);
      }
      ret(cv(q)); return false;
    }
    case B_free: {
      uint64_t p = concretizeHere(s, a[0], 64);
      if (!p) return false;
      auto it = s.blocks.find(p);
      if (it == s.blocks.end()) throw Violation{"memory", "free of a pointer that is not allocated"};
      if (it->second) s.mem.setValid(p, it->second, false);
      s.blocks.erase(it);
      return false;
    }
    case B_memcpy: case B_memmove: doCopy(s, a[0], a[1], a[2]); ret(a[0]); return false;
    case B_memset: doSet(s, a[0], a[1], a[2]); ret(a[0]); return false;
    case B_math: {
      static const std::map<std::string, std::pair<Op, int>> mm = {
        {"log", {Op::FFun, 0}}, {"log2", {Op::FFun, 1}}, {"exp", {Op::FFun, 2}}, {"log10", {Op::FFun, 3}}, {"log1p", {Op::FFun, 4}}, {"exp2", {Op::FFun, 5}},
        {"sqrt", {Op::FSqrt, 0}}, {"floor", {Op::FRound, 0}}, {"ceil", {Op::FRound, 1}}, {"trunc", {Op::FRound, 2}}, {"round", {Op::FRound, 3}}};
      auto& p = mm.at(bd.name);
      Val v = a[0];
      if (p.first == Op::FFun && v.e) v = cv(concretizeHere(s, v, 64));
      ret(mk(X.fop(p.first, 64, p.second, ex(v, 64)))); return false;
    }
    default: incomplete(std::string("builtin ") + bd.name); throw PathEnd();
  }
}

static bool isCheckFailed(StringRef n) {
  return n.starts_with("_ZN8tcmalloc17tcmalloc_internal11CheckFailed") || n.starts_with("_ZN8tcmalloc17tcmalloc_internal12CrashWithOOM");
}
static std::unordered_map<FuncInfo*, int> specialCache;
static int special(FuncInfo* fi, const Function* F) {  // 1 crash, 2 no-op
  StringRef n = F->getName();
  if (isCheckFailed(n)) return 1;
  if (n.starts_with("_ZN8tcmalloc17tcmalloc_internal7LogImpl")) return 2;
  return 0;
}

static void doCall(State& s, Thread& t, const Inst& I) {
  Frame& f = t.st.back();
  const CallInfo& ci = f.f->calls[I.aux];
  std::vector<Val> a(ci.args.size());
  for (size_t i = 0; i < a.size(); i++) a[i] = reg(f, ci.args[i]);
  if (ci.intrinsic) { doIntrinsic(s, f, I, ci, a); f.pc++; return; }
  if (ci.ia) {
    // Empty assembly is a compiler barrier; tied operands pass through.
    StringRef as = ci.ia->getAsmString();
    if (as.trim().empty()) {
      if (I.n >= 1) for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = i < a.size() ? a[i] : cv(0);
      f.pc++; return;
    }
    if (as == "pause" || as.starts_with("prefetch") || as.starts_with("mfence") || as.starts_with("lfence")) { f.pc++; return; }
    incomplete("inline assembly: " + as.substr(0, 60).str());
    throw PathEnd();
  }
  int bi = ci.builtin;
  FuncInfo* fi = ci.fi;
  const Function* F = ci.F;
  if (!F) {
    uint64_t p = concretizeHere(s, reg(f, ci.calleeSlot), 64);
    auto it = funcAt.find(p);
    if (it == funcAt.end()) { char b[80]; snprintf(b, 80, "call through a bad function pointer 0x%llx", (unsigned long long)p); throw Violation{"memory", b}; }
    fi = it->second; F = fi->F;
    bi = fi->builtin;
    if (F->isDeclaration()) fi = nullptr;
  }
  if (bi >= 0) {
    bool moved = doBuiltin(s, t, f, I, ci, bi, a);
    if (!moved) {
      Frame& g = s.th[s.cur].st.back();
      if (ci.normalEdge != ~0u) takeEdge(g, ci.normalEdge); else g.pc++;
    }
    return;
  }
  int sp = special(fi, F);
  if (sp == 1) { crash(s, "check failed: " + F->getName().str().substr(0, 0) + "TC_CHECK/TC_BUG"); }
  if (sp == 2) { setRet(f, I, cv(0)); f.pc++; return; }
  if (!fi) {
    StringRef n = F->getName();
    incomplete("call to undefined function " + demangle(n.str()));
    throw PathEnd();
  }
  for (auto& bv : ci.byval) {
    uint64_t sz = bv.second;
    t.sp = (t.sp - sz) & ~15ull;
    s.mem.setValid(t.sp, sz, true);
    uint64_t np = t.sp;
    doCopy(s, cv(np), a[bv.first], cv(sz));
    a[bv.first] = cv(np);
  }
  pushFrame(s, t, fi, a, I.n ? I.dst : -1, ci.normalEdge);
}

static bool gMergeReturn = false;

// ------------------------------------------------------------ interpreter
// Executes until the current path ends (PathEnd) or control must be
// re-dispatched (normal return).
static void runSlice(State& s) {
  for (unsigned budget = 0; budget < 20000; budget++) {
    Thread& t = s.th[s.cur];
    Frame& f = t.st.back();
    const Inst& I = f.f->insts[f.pc];
    S.insts++;
    if (I.atomic) schedPoint(s);
    switch (I.k) {
      case K_BIN:
        if (I.n == 1) { f.r[I.dst] = doBin(s, I.sub, I.w, reg(f, I.a), reg(f, I.b)); }
        else for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = doBin(s, I.sub, I.w, reg(f, I.a >= 0 ? I.a + (int)i : I.a - (int)i), reg(f, I.b >= 0 ? I.b + (int)i : I.b - (int)i));
        f.pc++; break;
      case K_ICMP:
        for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = doCmp(I.sub, I.w, reg(f, I.a >= 0 ? I.a + (int)i : I.a - (int)i), reg(f, I.b >= 0 ? I.b + (int)i : I.b - (int)i));
        f.pc++; break;
      case K_FCMP:
        for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = doFCmp(I.sub, I.w, reg(f, I.a >= 0 ? I.a + (int)i : I.a - (int)i), reg(f, I.b >= 0 ? I.b + (int)i : I.b - (int)i));
        f.pc++; break;
      case K_FNEG:
        for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = mk(X.bin(Op::Xor, ex(reg(f, I.a >= 0 ? I.a + (int)i : I.a - (int)i), I.w), X.cst((u128)1 << (I.w - 1), I.w)));
        f.pc++; break;
      case K_CAST:
        for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = doCast(I.sub, I.w2, I.w, reg(f, I.a >= 0 ? I.a + (int)i : I.a - (int)i));
        f.pc++; break;
      case K_BITCAST: {
        unsigned total = I.imm * I.w2;
        if (total > 128) { incomplete("wide vector bitcast"); throw PathEnd(); }
        E acc = nullptr;
        for (unsigned i = 0; i < I.imm; i++) {
          E p = ex(reg(f, I.a >= 0 ? I.a + (int)i : I.a - (int)i), I.w2);
          acc = acc ? X.concat(p, acc) : p;
        }
        for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = mk(X.extract(acc, i * I.w, I.w));
        f.pc++; break;
      }
      case K_COPY: {
        const auto& cp = f.f->copies[I.aux];
        for (unsigned i = 0; i < I.n; i++) f.r[I.dst + i] = reg(f, cp[i]);
        f.pc++; break;
      }
      case K_LOAD:
        if (I.n == 1) f.r[I.dst] = loadV(s, reg(f, I.a), I.w);
        else {
          Val p = reg(f, I.a);
          if (p.e) p = cv(concretizeHere(s, p, 64));
          for (unsigned i = 0; i < I.n; i++) { const LeafT& l = f.f->leafs[I.aux][i]; f.r[I.dst + i] = loadV(s, cv(p.c + l.off), l.w); }
        }
        f.pc++; break;
      case K_STORE:
        if (I.n == 1) storeV(s, reg(f, I.a), I.w, reg(f, I.b));
        else {
          Val p = reg(f, I.a);
          if (p.e) p = cv(concretizeHere(s, p, 64));
          for (unsigned i = 0; i < I.n; i++) { const LeafT& l = f.f->leafs[I.aux][i]; storeV(s, cv(p.c + l.off), l.w, reg(f, I.b >= 0 ? I.b + (int)i : I.b - (int)i)); }
        }
        if (I.atomic) wroteAtomic(s);
        f.pc++; break;
      case K_GEP: {
        Val b = reg(f, I.a);
        uint64_t off = I.imm;
        E sym = b.e;
        uint64_t base = b.e ? 0 : b.c;
        for (auto& g : f.f->geps[I.aux]) {
          const Val& v = reg(f, g.slot);
          if (isC(v)) { off += (uint64_t)sext64(v.c, g.w) * (uint64_t)g.scale; continue; }
          E x = v.e;
          if (g.w < 64) x = X.sext(x, 64); else if (g.w > 64) x = X.trunc(x, 64);
          E term = g.scale == 1 ? x : X.bin(Op::Mul, x, X.cst((u128)(uint64_t)g.scale, 64));
          sym = sym ? X.bin(Op::Add, sym, term) : term;
        }
        if (!sym) f.r[I.dst] = cv(base + off);
        else f.r[I.dst] = mk(base + off ? X.bin(Op::Add, sym, X.cst((u128)(base + off), 64)) : sym);
        f.pc++; break;
      }
      case K_ALLOCA: {
        uint64_t n = concretizeHere(s, reg(f, I.a), I.w) * I.imm;
        uint64_t al = std::max<uint64_t>(I.aux, 8);
        t.sp = (t.sp - n - 16) & ~(al - 1);
        if (n) s.mem.setValid(t.sp, n, true);
        f.r[I.dst] = cv(t.sp);
        f.pc++; break;
      }
      case K_SELECT: {
        if (I.imm) {
          for (unsigned i = 0; i < I.n; i++) {
            Val c = reg(f, I.a >= 0 ? I.a + (int)i : I.a - (int)i);
            Val x = reg(f, I.b >= 0 ? I.b + (int)i : I.b - (int)i), y = reg(f, I.c >= 0 ? I.c + (int)i : I.c - (int)i);
            unsigned w = f.f->leafs[I.aux][i].w;
            f.r[I.dst + i] = isC(c) ? (c.c ? x : y) : mk(X.ite(c.e, ex(x, w), ex(y, w)));
          }
          f.pc++; break;
        }
        Val c = reg(f, I.a);
        if (c.e) c = mk(fixE(s, c.e));
        for (unsigned i = 0; i < I.n; i++) {
          Val x = reg(f, I.b >= 0 ? I.b + (int)i : I.b - (int)i), y = reg(f, I.c >= 0 ? I.c + (int)i : I.c - (int)i);
          unsigned w = f.f->leafs[I.aux][i].w;
          f.r[I.dst + i] = isC(c) ? (c.c ? x : y) : mk(X.ite(c.e, ex(x, w), ex(y, w)));
        }
        f.pc++; break;
      }
      case K_BR: takeEdge(f, I.aux); break;
      case K_CBR: {
        Val c = reg(f, I.a);
        if (c.e) c = mk(fixE(s, c.e));
        if (isC(c)) { takeEdge(f, I.aux + (c.c ? 0 : 1)); break; }
        S.symBranches++;
        bool side = holds(s, c.e);
        E other = side ? X.not1(c.e) : c.e;
        Model m;
        int r = mayBeTrue(s, other, &m);
        if (r == 1) {
          State* n = forkState(s);
          addPC(*n, other);
          n->model = m;
          takeEdge(n->th[n->cur].st.back(), I.aux + (side ? 1 : 0));
          work->push_back(n);
          addPC(s, side ? c.e : X.not1(c.e));
        }
        takeEdge(f, I.aux + (side ? 0 : 1));
        break;
      }
      case K_SWITCH: {
        const SwitchInfo& sw = f.f->sw[I.aux];
        Val c = reg(f, I.a);
        if (c.e) c = mk(fixE(s, c.e));
        if (isC(c)) {
          uint32_t e = sw.def;
          for (auto& k : sw.cases) if (k.first == c.c) { e = k.second; break; }
          takeEdge(f, e);
          break;
        }
        // decide the model's case here, others re-execute in a sibling
        uint64_t v = (uint64_t)X.eval(c.e, s.model);
        bool hit = false;
        for (auto& k : sw.cases) if (k.first == v) { splitHere(s, X.eq(c.e, X.cst(v, I.w))); takeEdge(f, k.second); hit = true; break; }
        if (!hit) {
          E any = X.fls();
          for (auto& k : sw.cases) any = X.or1(any, X.eq(c.e, X.cst(k.first, I.w)));
          splitHere(s, any);
          takeEdge(f, sw.def);
        }
        break;
      }
      case K_RET: {
        std::vector<Val> rv(I.n);
        for (unsigned i = 0; i < I.n; i++) rv[i] = reg(f, I.a >= 0 ? I.a + (int)i : I.a - (int)i);
        int dst = f.retDst;
        uint32_t edge = f.retEdge;
        int mid = f.mergeId;
        uint64_t save = f.spSave;
        if (save > t.sp) s.mem.setValid(t.sp, save - t.sp, false);
        t.sp = save;
        t.st.pop_back();
        if (t.st.empty()) {
          t.done = true;
          if (s.cur == 0) throw PathEnd();
          wroteAtomic(s);
          switchAway(s);
          return;
        }
        Frame& c = t.st.back();
        if (dst >= 0) for (unsigned i = 0; i < rv.size(); i++) c.r[dst + i] = rv[i];
        if (mid) { gMergeReturn = true; return; }  // caller pc was advanced already
        if (edge == ~0u - 1) {}
        else if (edge != ~0u) takeEdge(c, edge);
        else c.pc++;
        break;
      }
      case K_CALL: {
        unsigned was = s.cur;
        doCall(s, t, I);
        if (s.cur != was) return;
        break;
      }
      case K_RMW: {
        Val p = reg(f, I.a);
        if (p.e) p = mk(fixE(s, p.e));
        if (p.e) p = cv(concretizeHere(s, p, 64));
        Val old = loadV(s, p, I.w), v = reg(f, I.b), nv;
        switch (I.sub) {
          case AtomicRMWInst::Xchg: nv = v; break;
          case AtomicRMWInst::Add: nv = doBin(s, Instruction::Add, I.w, old, v); break;
          case AtomicRMWInst::Sub: nv = doBin(s, Instruction::Sub, I.w, old, v); break;
          case AtomicRMWInst::And: nv = doBin(s, Instruction::And, I.w, old, v); break;
          case AtomicRMWInst::Or: nv = doBin(s, Instruction::Or, I.w, old, v); break;
          case AtomicRMWInst::Xor: nv = doBin(s, Instruction::Xor, I.w, old, v); break;
          case AtomicRMWInst::UMax: nv = mk(X.ite(X.cmp(Op::Ult, ex(old, I.w), ex(v, I.w)), ex(v, I.w), ex(old, I.w))); break;
          case AtomicRMWInst::UMin: nv = mk(X.ite(X.cmp(Op::Ult, ex(v, I.w), ex(old, I.w)), ex(v, I.w), ex(old, I.w))); break;
          case AtomicRMWInst::Max: nv = mk(X.ite(X.cmp(Op::Slt, ex(old, I.w), ex(v, I.w)), ex(v, I.w), ex(old, I.w))); break;
          case AtomicRMWInst::Min: nv = mk(X.ite(X.cmp(Op::Slt, ex(v, I.w), ex(old, I.w)), ex(v, I.w), ex(old, I.w))); break;
          default: incomplete("atomicrmw"); throw PathEnd();
        }
        storeV(s, p, I.w, nv);
        wroteAtomic(s);
        f.r[I.dst] = old;
        f.pc++; break;
      }
      case K_CMPXCHG: {
        Val p = reg(f, I.a);
        if (p.e) p = mk(fixE(s, p.e));
        if (p.e) p = cv(concretizeHere(s, p, 64));
        Val old = loadV(s, p, I.w), ex0 = reg(f, I.b), nv = reg(f, I.c);
        Val c = doCmp(CmpInst::ICMP_EQ, I.w, old, ex0);
        if (c.e) c = mk(fixE(s, c.e));
        if (isC(c)) { checkC(s, p.c, (I.w + 7) / 8, true); if (c.c) storeV(s, p, I.w, nv); wroteAtomic(s); }
        else { storeV(s, p, I.w, mk(X.ite(c.e, ex(nv, I.w), ex(old, I.w)))); wroteAtomic(s); }
        f.r[I.dst] = old;
        f.r[I.dst + 1] = c;
        f.pc++; break;
      }
      case K_NOP: f.pc++; break;
      case K_UNREACHABLE: throw Violation{"unreachable", "unreachable code executed in " + f.f->pretty};
      default: {
        std::string tx; raw_string_ostream os(tx); if (I.I) I.I->print(os);
        incomplete("unsupported instruction: " + tx.substr(0, 120));
        throw PathEnd();
      }
    }
  }
}

// ------------------------------------------------------------ path ends
static std::vector<std::string> samplesOut;
static uint64_t sampleSeen = 0, rngState = 88172645463325252ull;
static uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static void samplePath(State& s, bool crashed = false) {
  if (!opt.samples) return;
  sampleSeen++;
  size_t slot;
  if (samplesOut.size() < opt.samples) { samplesOut.push_back(""); slot = samplesOut.size() - 1; }
  else { uint64_t r = rng() % sampleSeen; if (r >= opt.samples) return; slot = r; }
  std::string t;
  for (auto& i : inputsOf(s)) t += "I " + std::get<0>(i) + " " + std::to_string(std::get<2>(i)) + "\n";
  for (auto& o : s.obs) t += "O " + std::to_string((uint64_t)X.eval(o.second, s.model)) + "\n";
  if (crashed) t += "X\n";
  samplesOut[slot] = t;
}

static State* explore(State* init, int mergeId, std::vector<State*>* collected) {
  std::vector<State*> list{init};
  work = &list;
  uint64_t tick = 0;
  while (!list.empty()) {
    State* s = list.back();
    list.pop_back();
    work = &list;
    try {
      for (;;) {
        gMergeReturn = false;
        try { runSlice(*s); } catch (const void*) {}
        if (gMergeReturn) {
          gMergeReturn = false;
          collected->push_back(s);
          s = nullptr;
          break;
        }
        s->steps += 20000;
        if ((++tick & 15) == 0) {
          checkBudget();
          if ((tick & 255) == 0 && rssMB() > opt.memLimitMB) { incomplete("memory budget exhausted"); throw Stop(); }
        }
        if (s->steps > opt.maxInstPerPath) {
          std::string w = "instruction budget of one path exhausted in";
          for (auto& t : s->th) if (!t.done) { int k = 0; for (size_t i = t.st.size(); i > 0 && k < 6; i--, k++) w += " < " + t.st[i - 1].f->F->getName().str(); w += ";"; }
          incomplete(w.c_str());
          throw PathEnd();
        }
      }
    } catch (PathEnd&) {
      if (s->th[0].done) { S.paths++; samplePath(*s); }
    } catch (Violation& v) {
      work = &list;
      bool crashy = v.kind != "assert" && v.kind != "deadlock";
      if (crashy && s->expectCrash) { S.crashExpected++; S.reach["expected-crash"]++; S.paths++; samplePath(*s, true); }
      else report(*s, v.kind, v.msg);
    }
    delete s;
    if (opt.maxPaths && S.paths >= opt.maxPaths && !list.empty()) { incomplete("path budget exhausted"); throw Stop(); }
  }
  return nullptr;
}

// Merges as many of v as agree on the parts that cannot be expressed by ITEs;
// consumes the merged ones from v.
static State* mergeStates(std::vector<State*>& v, size_t pcBase) {
  State* a = v[0];
  std::vector<State*> grp{a}, rest;
  for (size_t i = 1; i < v.size(); i++) {
    State* b = v[i];
    bool ok = b->blocks == a->blocks && b->heap == a->heap && b->th.size() == a->th.size() && b->cur == a->cur && b->mem.lazy.size() == a->mem.lazy.size();
    (ok ? grp : rest).push_back(b);
  }
  // validity bits must agree page by page; drop the ones that do not
  std::vector<State*> fin{a};
  std::set<uint64_t> diff;
  for (size_t i = 1; i < grp.size(); i++) {
    State* b = grp[i];
    bool ok = true;
    std::set<uint64_t> d;
    std::set<uint64_t> lts;
    for (auto& l : a->mem.leaves) lts.insert(l.first);
    for (auto& l : b->mem.leaves) lts.insert(l.first);
    for (uint64_t lt : lts) {
      auto ia = a->mem.leaves.find(lt), ib = b->mem.leaves.find(lt);
      Leaf* la = ia == a->mem.leaves.end() ? nullptr : ia->second;
      Leaf* lb = ib == b->mem.leaves.end() ? nullptr : ib->second;
      if (la == lb) continue;
      for (unsigned k = 0; k < (1u << kLeafBits) && ok; k++) {
        Page* pa = la ? la->p[k] : nullptr;
        Page* pb = lb ? lb->p[k] : nullptr;
        if (pa == pb) continue;
        uint64_t pn = (lt << kLeafBits) | k;
        static Page zeroInvalid, zeroValid = [] { Page z; memset(z.valid, 0xff, sizeof z.valid); return z; }();
        const Page* qa = pa ? pa : a->mem.inLazy(pn) ? &zeroValid : &zeroInvalid;
        const Page* qb = pb ? pb : b->mem.inLazy(pn) ? &zeroValid : &zeroInvalid;
        if (memcmp(qa->valid, qb->valid, sizeof qa->valid)) { ok = false; break; }
        d.insert(pn);
      }
      if (!ok) break;
    }
    if (ok) { fin.push_back(b); diff.insert(d.begin(), d.end()); } else rest.push_back(b);
  }
  v = rest;
  if (fin.size() == 1) return a;
  // conditions
  std::vector<E> cond;
  for (State* q : fin) {
    E c = X.tru();
    for (size_t i = pcBase; i < q->pc.size(); i++) c = X.and1(c, q->pc[i]);
    cond.push_back(c);
  }
  auto pick = [&](const std::vector<E>& vals) {   // later ones are the default
    E r = vals.back();
    for (size_t i = vals.size() - 1; i-- > 0;) if (vals[i] != r) r = X.ite(cond[i], vals[i], r);
    return r;
  };
  // memory, word by word
  for (uint64_t pn : diff) {
    for (uint64_t o = 0; o < kPg; o += 8) {
      uint64_t ad = (pn << kPgBits) + o;
      bool same = true;
      std::vector<E> vals;
      uint64_t c0 = 0; E e0 = nullptr;
      std::vector<std::pair<E, uint64_t>> raw;
      for (size_t i = 0; i < fin.size(); i++) {
        uint64_t c = 0;
        const Page* p = fin[i]->mem.rd(pn);
        E e = nullptr;
        if (p) e = fin[i]->mem.load(ad, 8, c);
        raw.push_back({e, c});
        if (i == 0) { c0 = c; e0 = e; } else if (e != e0 || (!e && c != c0)) same = false;
      }
      if (same) continue;
      for (auto& r : raw) vals.push_back(r.first ? r.first : X.cst(r.second, 64));
      if (!a->mem.havePage(pn) && !a->mem.inLazy(pn)) continue;  // invalid memory
      // merge at the coarsest granularity that keeps equal parts equal
      bool lowOnly = true;
      (void)lowOnly;
      E r = pick(vals);
      if (r->isConst()) a->mem.storeC(ad, 8, (uint64_t)r->k); else a->mem.storeE(ad, 8, r);
    }
  }
  // return value registers of the caller
  for (size_t ti = 0; ti < a->th.size(); ti++)
    for (size_t fi = 0; fi < a->th[ti].st.size(); fi++) {
      auto& ra = a->th[ti].st[fi].r;
      for (size_t k = 0; k < ra.size(); k++) {
        bool same = true;
        for (State* q : fin) { const Val& x = q->th[ti].st[fi].r[k]; if (x.e != ra[k].e || (!x.e && x.c != ra[k].c)) same = false; }
        if (same) continue;
        unsigned w = 64;
        for (State* q : fin) { const Val& x = q->th[ti].st[fi].r[k]; if (x.e) w = x.e->w; }
        std::vector<E> vals;
        for (State* q : fin) vals.push_back(ex(q->th[ti].st[fi].r[k], w));
        ra[k] = mk(pick(vals));
      }
    }
  for (size_t k = 0; k < a->obs.size(); k++) {
    std::vector<E> vals;
    for (State* q : fin) vals.push_back(q->obs[k].second);
    a->obs[k].second = pick(vals);
  }
  // inputs
  for (State* q : fin) if (q != a) {
    std::unordered_set<uint32_t> have;
    for (auto& i : a->inputs) have.insert(i.nameId);
    for (auto& i : q->inputs) if (!have.count(i.nameId)) a->inputs.push_back(i);
    for (auto& n : q->nameCount) { int& x = a->nameCount[n.first]; x = std::max(x, n.second); }
    a->steps = std::max(a->steps, q->steps);
  }
  std::vector<E> pc(a->pc.begin(), a->pc.begin() + pcBase);
  E any = X.fls();
  for (E c : cond) any = X.or1(any, c);
  a->pc = pc;
  std::unordered_set<uint32_t> fx;
  for (uint32_t x : a->fixed) { bool all = true; for (State* q : fin) if (!q->fixed.count(x)) all = false; if (all) fx.insert(x); }
  // keep only variables fixed before the merge region
  a->fixed.clear();
  for (E c : pc) {
    if (c->op == Op::Eq && c->a->op == Op::Var && c->b->isConst()) a->fixed.insert(c->a->aux);
    else if (c->op == Op::Var && c->w == 1) a->fixed.insert(c->aux);
    else if (E n = isNot1(c)) { if (n->op == Op::Var) a->fixed.insert(n->aux); }
  }
  (void)fx;
  addPC(*a, any);
  for (State* q : fin) if (q != a) delete q;
  return a;
}

// ------------------------------------------------------------ start-up
static void writeResult(const std::string& status) {
  std::ofstream o(opt.out);
  o << "{\n\"status\": " << jsonStr(status) << ",\n";
  o << "\"paths\": " << S.paths << ", \"forks\": " << S.forks << ", \"killed\": " << S.killed << ", \"instructions\": " << S.insts
    << ", \"queries\": " << S.queries << ", \"sat\": " << S.sat << ", \"unsat\": " << S.unsat << ", \"unknown\": " << S.unknown
    << ", \"cache_hits\": " << S.cacheHits << ", \"model_hits\": " << S.modelHits << ", \"asserts\": " << S.asserts << ", \"assert_queries\": " << S.assertQueries
    << ", \"symbolic_branches\": " << S.symBranches << ", \"symbolic_memory\": " << S.symMem << ", \"merges\": " << S.merges << ", \"sched_points\": " << S.schedPoints
    << ", \"expected_crashes\": " << S.crashExpected << ", \"solver_seconds\": " << S.solver << ", \"seconds\": " << elapsed() << ", \"rss_mb\": " << rssMB() << ",\n";
  o << "\"reach\": {";
  bool first = true;
  for (auto& r : S.reach) { o << (first ? "" : ", ") << jsonStr(r.first) << ": " << r.second; first = false; }
  o << "},\n\"assert_sites\": {";
  first = true;
  for (auto& r : assertSites) { o << (first ? "" : ", ") << jsonStr(r.first) << ": " << r.second; first = false; }
  o << "},\n\"functions\": [";
  first = true;
  std::vector<std::string> fs;
  for (auto& f : funcOf) if (f.second->covered) fs.push_back(f.second->pretty);
  std::sort(fs.begin(), fs.end());
  for (auto& f : fs) { o << (first ? "" : ",\n  ") << jsonStr(f); first = false; }
  o << "],\n\"incomplete\": [";
  first = true;
  for (auto& f : S.incomplete) { o << (first ? "" : ", ") << jsonStr(f); first = false; }
  o << "],\n\"violations\": [";
  first = true;
  for (auto& r : reports) {
    o << (first ? "" : ",") << "{\"kind\": " << jsonStr(r.kind) << ", \"msg\": " << jsonStr(r.msg) << ", \"stack\": [";
    for (size_t i = 0; i < r.stack.size(); i++) o << (i ? ", " : "") << jsonStr(r.stack[i]);
    o << "], \"inputs\": [";
    for (size_t i = 0; i < r.inputs.size(); i++) o << (i ? ", " : "") << "[" << jsonStr(std::get<0>(r.inputs[i])) << ", " << std::get<1>(r.inputs[i]) << ", \"" << std::get<2>(r.inputs[i]) << "\"]";
    o << "]}";
    first = false;
  }
  o << "],\n\"samples\": [";
  for (size_t i = 0; i < samplesOut.size(); i++) o << (i ? ", " : "") << jsonStr(samplesOut[i]);
  o << "]\n}\n";
}

// Inserts calls to the native scheduler around atomics, for replays of
// counterexamples with several threads.
static int instrument(Module& m, const std::string& out) {
  LLVMContext& C = m.getContext();
  auto* ft = FunctionType::get(Type::getVoidTy(C), false);
  auto sp = m.getOrInsertFunction("verif_sched_point", ft), wr = m.getOrInsertFunction("verif_sched_wrote", ft);
  for (auto& F : m) for (auto& B : F) {
    std::vector<Instruction*> at;
    for (auto& I : B) if (I.isAtomic() && !isa<FenceInst>(I)) at.push_back(&I);
    for (auto* I : at) {
      CallInst::Create(sp, "", I);
      if (!isa<LoadInst>(I)) CallInst::Create(wr, "")->insertAfter(I);
    }
    // reaching "unreachable" is an error the executor reports: make it visible
    if (auto* u = dyn_cast<UnreachableInst>(B.getTerminator())) {
      auto* prev = u->getPrevNonDebugInstruction();
      auto* cb = prev ? dyn_cast<CallBase>(prev) : nullptr;
      if (!cb || !cb->doesNotReturn()) CallInst::Create(Intrinsic::getDeclaration(&m, Intrinsic::trap), "", u);
    }
  }
  // constructors run when the replay runtime asks, as in the executor
  Function* rc = Function::Create(ft, GlobalValue::ExternalLinkage, "verif_run_ctors", m);
  BasicBlock* rb = BasicBlock::Create(C, "", rc);
  if (auto* gc = m.getNamedGlobal("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, Function*>> cs;
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& op : ca->operands())
        if (auto* c = dyn_cast<ConstantStruct>(op))
          if (auto* f = dyn_cast<Function>(c->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(c->getOperand(0))->getZExtValue(), f});
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) CallInst::Create(c.second->getFunctionType(), c.second, "", rb);
    gc->eraseFromParent();
  }
  ReturnInst::Create(C, rb);
  std::error_code ec;
  raw_fd_ostream os(out, ec);
  WriteBitcodeToFile(m, os);
  return ec ? 1 : 0;
}

static void realMain() {
  t0 = Clock::now();
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, z3err);
  LLVMContext C;
  SMDiagnostic err;
  auto mod = parseIRFile(opt.file, err, C);
  if (!mod) { err.print("symx", errs()); exitCode = 2; return; }
  M = mod.get();
  if (!opt.instrumentOut.empty()) { exitCode = instrument(*M, opt.instrumentOut); return; }
  DL = &M->getDataLayout();
  State* s = new State;
  s->heap = kHeapBase;
  uint64_t fa = kFuncBase;
  for (auto& F : *M) {
    if (F.isIntrinsic()) continue;
    FuncInfo* fi = new FuncInfo;
    fi->F = &F;
    fi->name = F.getName().str();
    fi->pretty = demangle(fi->name);
    fi->addr = fa;
    fi->builtin = builtinOf(F.getName());
    if (!F.isDeclaration() && fi->builtin >= 0 && !builtinOverrides(fi->builtin)) fi->builtin = -1;
    gaddr[&F] = fa;
    funcAt[fa] = fi;
    funcOf[&F] = fi;
    fa += 16;
  }
  uint64_t ga = kGlobalBase;
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) { gaddr[&G] = 0; continue; }
    uint64_t n = DL->getTypeAllocSize(G.getValueType());
    uint64_t al = std::max<uint64_t>(16, G.getAlign().valueOrOne().value());
    if (G.isDeclaration()) {
      if (G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
      // a handful of bytes so that its address is distinct; reads are invalid
      ga = (ga + 64 + al - 1) & ~(al - 1);
      gaddr[&G] = ga; ga += 64; continue;
    }
    ga = (ga + 32 + al - 1) & ~(al - 1);
    gaddr[&G] = ga;
    if (n) s->mem.setValid(ga, n, true);
    globalsByAddr.push_back({ga, &G});
    ga += n;
  }
  for (auto& A : M->aliases()) if (auto* gv = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) gaddr[&A] = gaddr.count(gv) ? gaddr[gv] : 0;
  for (auto& F : *M) if (F.hasExternalWeakLinkage() && F.isDeclaration()) gaddr[&F] = 0;
  for (auto& g : globalsByAddr) if (g.second->hasInitializer()) initGlobal(s->mem, g.first, g.second->getInitializer());
  std::vector<std::pair<uint64_t, FuncInfo*>> ctors;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& op : ca->operands())
        if (auto* cs = dyn_cast<ConstantStruct>(op))
          if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), funcOf[f]});
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* entry = M->getFunction(opt.entry);
  if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); exitCode = 2; return; }
  std::string status = "ok";
  try {
    s->th.emplace_back();
    s->th[0].sp = kStackBase + kStackSize - 4096;
    s->model.id = ++modelCounter;
    // constructors run first, in order: push in reverse
    pushFrame(*s, s->th[0], funcOf[entry], {}, -1, ~0u);
    for (size_t i = ctors.size(); i-- > 0;) {
      // returning from a constructor must not advance the frame below it
      pushFrame(*s, s->th[0], ctors[i].second, {}, -1, ~0u, 0);
      s->th[0].st.back().retEdge = ~0u - 1;
    }
    explore(s, 0, nullptr);
  } catch (Stop&) {}
  if (!reports.empty()) { status = "violation"; exitCode = 10; }
  else if (!S.incomplete.empty()) { status = "incomplete"; exitCode = 20; }
  else { status = "ok"; exitCode = 0; }
  writeResult(status);
  fprintf(stderr, "%s: paths=%llu killed=%llu insts=%llu queries=%llu (cache %llu, model %llu) solver=%.2fs total=%.2fs rss=%lluMB\n", status.c_str(),
          (unsigned long long)S.paths, (unsigned long long)S.killed, (unsigned long long)S.insts, (unsigned long long)S.queries, (unsigned long long)S.cacheHits, (unsigned long long)S.modelHits, S.solver, elapsed(), (unsigned long long)rssMB());
  if (opt.verbose) {
    std::vector<std::pair<uint64_t, std::string>> v;
    for (auto& f : forkSites) v.push_back({f.second, f.first});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 12; i++) fprintf(stderr, "  fork %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
  }
  if (opt.verbose) for (auto& r : S.reach) fprintf(stderr, "  reach %s %llu\n", r.first.c_str(), (unsigned long long)r.second);
}
