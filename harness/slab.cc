// The per-CPU slab: the real TcmallocSlab with its restartable sequences
// executed instruction by instruction (engine/lift.cc), under the kernel model
// of rseq_model.h.
//  P0 mode: 0 history on one thread with interruptions; 1 threads
//  mode 0: P1 steps, P2 spurious interruptions, P3 migrations, P4 op set
//  mode 1: P1 kind of thread 0, P2 kind of thread 1, P3 cpu of thread 1,
//          P4 spurious interruptions, P5 initial items
#include "tcmalloc/internal/percpu_tcmalloc.h"
#include "rseq_model.h"
using namespace tcmalloc::tcmalloc_internal;
using namespace tcmalloc::tcmalloc_internal::subtle::percpu;
constexpr int kC = 4;                     // classes 1..3
using Slab = TcmallocSlab<kC>;
static const char* kPossible = "0-1\n";
extern "C" {
int open(const char*, int, ...) { return 3; }
static int g_off;
ssize_t read(int, void* p, size_t n) {
  int k = 0;
  while (kPossible[g_off] && (size_t)k < n) ((char*)p)[k++] = kPossible[g_off++];
  return k;
}
}
static Slab slab;
constexpr int kItems = 12;
static uint64_t base;                      // item i is base + 16*i
static void* item(int i) { return (void*)(base + 16 * i); }
static int index_of(void* p) {
  uint64_t d = (uint64_t)p - base;
  d = verif_concretize(d);
  verif_assert(d % 16 == 0 && d < 16 * kItems, "an object that was put in comes out");
  return d / 16;
}
static int held[kItems];                   // 1: with the program, 0: in a slab
static void got(void* p) { int i = index_of(p); verif_assert(held[i] == 0, "an object handed out was in the slab, once"); held[i] = 1; }
static int max_caps[2][kC] = {{0, 3, 0, 4}, {0, 5, 2, 6}};   // by shift
static int cls_cap(int shift, int c) { return max_caps[shift - 8][c]; }
static void* arena[3];
static int cur_arena, shift_now = 8;
static bool populated[2] = {true, true};
static int nslabs;
static void* slab_memory() {
  static uintptr_t at = 0x200000000ull;
  void* p = (void*)at;
  verif_map(p, 4096);
  at += 4096;
  nslabs++;
  return p;
}
static int cap[2][kC], len[2][kC];         // what the history implies

static void check(const char*) {
  for (int cpu = 0; cpu < 2; cpu++) for (int c = 1; c < kC; c++) {
    verif_assert(slab.Length(cpu, c) == (size_t)len[cpu][c], "length equals the objects put in and not taken out");
    verif_assert(slab.Capacity(cpu, c) == (size_t)cap[cpu][c], "capacity equals what was granted");
    verif_assert(len[cpu][c] <= cap[cpu][c] && cap[cpu][c] <= cls_cap(shift_now, c), "never more objects than capacity, nor more capacity than the maximum");
  }
}
// on which CPU did n objects of class c arrive (or leave)?
static int where(int c, int n) {
  int at = -1;
  for (int cpu = 0; cpu < 2; cpu++) {
    int d = (int)slab.Length(cpu, c) - len[cpu][c];
    verif_assert(d == 0 || d == n, "an operation changes one CPU's slab by exactly what it reports");
    if (d) { verif_assert(at < 0, "one CPU"); at = cpu; len[cpu][c] += d; }
  }
  verif_assert(at >= 0, "the operation took effect");
  return at;
}
// as the callers do: on failure cache the slab and retry; false when full/empty
template <class F>
static int attempt(F f, int& cpu_out) {
  for (int i = 0;; i++) {
    int r = f();
    if (r) return r;
    auto [cpu, cached] = slab.CacheCpuSlab();
    cpu_out = cpu;
    if (cpu < 0 || !cached) return 0;
    verif_assert(i < 8, "retries end");
  }
}
static int free_item() { for (int i = 0; i < kItems; i++) if (held[i] == 1) return i; return -1; }
static void do_push(int c) {
  int i = free_item();
  if (i < 0) return;
  int cpu = -2;
  int r = attempt([&] { return (int)slab.Push(c, item(i)); }, cpu);
  if (r) { held[i] = 0; where(c, 1); verif_reach("pushed"); }
  else { verif_assert(cpu >= 0, "not stopped"); verif_assert(len[cpu][c] == cap[cpu][c], "refused only when full"); verif_reach("full"); }
}
static void do_pop(int c) {
  int cpu = -2;
  void* p = nullptr;
  attempt([&] { p = slab.Pop(c); return p != nullptr; }, cpu);
  if (p) { got(p); where(c, -1); verif_reach("popped"); }
  else { verif_assert(cpu >= 0 && len[cpu][c] == 0, "refused only when empty"); verif_reach("empty"); }
}
static void do_push_batch(int c, int n) {
  void* b[4]; int id[4]; int m = 0;
  for (int i = 0; i < kItems && m < n; i++) if (held[i] == 1) { id[m] = i; b[m++] = item(i); }
  if (!m) return;
  int cpu = -2;
  int r = attempt([&] { return (int)slab.PushBatch(c, b, m); }, cpu);
  verif_assert(r >= 0 && r <= m, "a batch takes at most what it was given");
  if (r) {
    for (int i = 0; i < m - r; i++) verif_assert(b[i] == item(id[i]), "what was not taken stays at the front");
    for (int i = m - r; i < m; i++) held[id[i]] = 0;
    int at = where(c, r);
    verif_assert(r == m || len[at][c] == cap[at][c], "a batch is cut short only when full");
    verif_reach("batch in");
  } else verif_assert(cpu >= 0 && len[cpu][c] == cap[cpu][c], "refused only when full");
}
static void do_pop_batch(int c, int n) {
  void* b[4];
  int cpu = -2;
  int r = attempt([&] { return (int)slab.PopBatch(c, b, n); }, cpu);
  verif_assert(r >= 0 && r <= n, "a batch is at most what was asked for");
  if (r) {
    for (int i = 0; i < r; i++) got(b[i]);
    int at = where(c, -r);
    verif_assert(r == n || len[at][c] == 0, "a batch is cut short only when empty");
    verif_reach("batch out");
  } else verif_assert(cpu >= 0 && len[cpu][c] == 0, "refused only when empty");
}
static void do_grow(int c, int n) {
  auto [cpu, cached] = slab.CacheCpuSlab();
  if (cpu < 0) return;
  size_t r = slab.Grow(cpu, c, n, [&](uint8_t s) -> size_t { return cls_cap(s, c); });
  int want = std::min(n, cls_cap(shift_now, c) - cap[cpu][c]);
  verif_assert(r == 0 || (int)r == want, "growth is what was asked, up to the maximum, or nothing");
  cap[cpu][c] += r;
  if (r) verif_reach("grown");
}
static void take(int cpu, int c, void** b, size_t n) { for (size_t i = 0; i < n; i++) got(b[i]); }
static void do_shrink(int cpu, int c, int n) {
  ScopedSlabCpuStop<kC> st(slab, cpu);
  int popped = 0;
  size_t r = slab.ShrinkOtherCache(cpu, c, n, [&](size_t cc, void** b, size_t k) { verif_assert((int)cc == c, "class"); take(cpu, c, b, k); popped += k; });
  len[cpu][c] -= popped;
  verif_assert((int)r == std::min(n, cap[cpu][c]), "capacity is taken away as asked, down to nothing");
  cap[cpu][c] -= r;
  verif_assert(popped == 0 || len[cpu][c] == cap[cpu][c], "objects leave only to make room");
}
static void do_grow_other(int cpu, int c, int n) {
  ScopedSlabCpuStop<kC> st(slab, cpu);
  size_t r = slab.GrowOtherCache(cpu, c, n, [&](uint8_t s) -> size_t { return cls_cap(s, c); });
  verif_assert((int)r == std::min(n, cls_cap(shift_now, c) - cap[cpu][c]), "growth is what was asked, up to the maximum");
  cap[cpu][c] += r;
}
static auto drain_handler = [](int cpu, size_t c, void** b, size_t n, size_t k) {
  verif_assert((int)n == len[cpu][c] && (int)k == cap[cpu][c], "draining reports the objects and the capacity there were");
  take(cpu, c, b, n);
  len[cpu][c] = 0;
  cap[cpu][c] = 0;
};
static void do_drain(int cpu) {
  slab.Drain(cpu, drain_handler);
  for (int c = 1; c < kC; c++) verif_assert(len[cpu][c] == 0 && cap[cpu][c] == 0, "draining empties every class");
}
static bool late; static void* old_mem[4]; static size_t old_len[4]; static int nold;
static void wipe(void* p, size_t n) { if (late) { old_mem[nold] = p; old_len[nold++] = n; } else memset(p, 0, n); }     // what giving the old slabs back does
static void do_resize() {
  int ns = shift_now == 8 ? 9 : 8;
  void* mem = slab_memory();
  int os = shift_now;
  shift_now = ns;
  auto info = slab.ResizeSlabs(ToShiftType(ns), mem, [&](size_t c) -> size_t { return cls_cap(ns, c); }, [](size_t) { return true; }, drain_handler);
  verif_assert(info.old_slabs_size == (2u << os), "the old slabs' size");
  wipe(info.old_slabs, info.old_slabs_size);
  for (int cpu = 0; cpu < 2; cpu++) for (int c = 1; c < kC; c++) verif_assert(len[cpu][c] == 0 && cap[cpu][c] == 0, "resizing hands back every object");
  verif_reach("resized");
}
static void do_update(int c, int m) {
  void* mem = slab_memory();
  PerSizeClassMaxCapacity mc[1] = {{(size_t)c, (size_t)m}};
  auto info = slab.UpdateMaxCapacities(mem, [&](size_t cc) -> size_t { return cls_cap(shift_now, cc); }, [&](int cc, uint16_t v) { verif_assert(cc == c && v == m, "update"); max_caps[shift_now - 8][cc] = v; },
                                       [](size_t) { return true; }, drain_handler, mc, 1);
  wipe(info.old_slabs, info.old_slabs_size);
  verif_reach("updated");
}
static void init() {
  base = verif_u64("base");
  verif_assume(base % 16 == 0 && base >= 4096 && base < (1ull << 46));
  for (int i = 0; i < kItems; i++) held[i] = 1;
  rseqm::g.on = true;
  rseqm::g.ncpu = 2;
  rseqm::g.cpu[0] = 0;
  verif_assert(IsFast(), "restartable sequences are available");
  void* mem = slab_memory();
  slab.Init([](size_t n, std::align_val_t a) -> void* { return __builtin_operator_new(n, a); }, mem, [](size_t c) -> size_t { return cls_cap(8, c); }, ToShiftType(8));
  for (int cpu = 0; cpu < 2; cpu++) slab.InitCpu(cpu, [](size_t c) -> size_t { return cls_cap(8, c); });
  check("init");
}
// every object is in exactly one place
static void final_check() {
  rseqm::g.spurious = 0;
  for (int cpu = 0; cpu < 2; cpu++) do_drain(cpu);
  for (int i = 0; i < kItems; i++) verif_assert(held[i] == 1, "every object comes back");
}

// ---- giving the slabs of idle CPUs back
static void metadata() {
  int n = verif_param(1), off = verif_param(2), live = verif_param(3);   // CPUs, offset of the slabs in 256 KiB units
  kPossible = n == 24 ? "0-23\n" : n == 20 ? "0-19\n" : "0-15\n";
  rseqm::g.ncpu = n;
  verif_assert(IsFast(), "fast");
  constexpr uint64_t kS = 1 << 18;
  uint64_t at = 0x400000000ull + off * kS;
  verif_map((void*)at, n * kS);
  slab.Init([](size_t n, std::align_val_t a) -> void* { return __builtin_operator_new(n, a); }, (void*)at, [](size_t c) -> size_t { return cls_cap(8, c); }, ToShiftType(18));
  bool pop[24], cp[24];
  for (int c = 0; c < n; c++) {
    // most CPUs are settled, "live" of them in the middle are anything
    bool any = c >= 6 && c < 6 + live;
    pop[c] = any ? verif_concretize(verif_range("populated", 0, 1)) : (c % 5 != 1);
    cp[c] = pop[c] && (any ? verif_concretize(verif_range("holds", 0, 1)) : false);
    if (pop[c]) slab.InitCpu(c, [](size_t c) -> size_t { return cls_cap(8, c); });
    if (cp[c]) {
      ScopedSlabCpuStop<kC> st(slab, c);
      slab.GrowOtherCache(c, c % 2 ? 1 : 3, 2, [](uint8_t s) -> size_t { return 2; });
    }
  }
  int unpop[24] = {};
  uint64_t gone = 0;
  bool discarded[24] = {};
  slab.ReleaseSlabMetadataForDrainedCpus([&](size_t c) { return pop[c]; }, [&](size_t c) { verif_assert(c < (size_t)n, "a CPU there is"); unpop[c]++; },
    [&](void* p, size_t len) {
      uint64_t a = (uint64_t)p;
      verif_assert(a % kHugePageSize == 0 && len % kHugePageSize == 0 && len, "whole hugepages are given back");
      verif_assert(a >= at && a + len <= at + n * kS, "only slab memory is given back");
      for (uint64_t x = a; x < a + len; x += kS) {
        int c = (x - at) / kS;
        verif_assert(!discarded[c], "once");
        discarded[c] = true;
        verif_assert(!cp[c], "a CPU that may hold objects keeps its slab");
      }
      gone += len;
    });
  for (int c = 0; c < n; c++) {
    verif_assert(unpop[c] == discarded[c], "exactly the CPUs whose slab is gone become unpopulated");
    // a hugepage of drained CPUs is given back
    uint64_t h = (at + c * kS) / kHugePageSize * kHugePageSize;
    if (h >= at && h + kHugePageSize <= at + n * kS) {
      bool busy = false, some = false;
      for (int k = 0; k < n; k++) { uint64_t x = at + k * kS; if (x >= h && x < h + kHugePageSize) { busy |= cp[k]; some |= pop[k]; } }
      verif_assert(discarded[c] == (some && !busy), "a hugepage of drained slabs is given back");
    }
  }
  if (gone) verif_reach("given back");
  // every CPU works again
  for (int c = 0; c < n; c++) if (pop[c] && !discarded[c]) for (int k = 1; k < kC; k++) verif_assert(slab.Capacity(c, k) == (cp[c] && k == (c % 2 ? 1 : 3) ? 2u : 0u), "what stays is unchanged");
  rseqm::migrate(0);
  if (pop[0] && !discarded[0]) { auto [cpu, cached] = slab.CacheCpuSlab(); verif_assert(cpu == 0, "CPUs run again"); }
  verif_reach("done");
}
// ---- threads
static int t_kind[2], t_cpu[2];
static int put[kItems];                     // owner thread of items with the program
static int g_pushed, g_popped;
static bool t_own[2][kItems];
static int capsum[2][kC];                   // granted minus taken, per cpu
static void t_got(int t, void* p) { int i = index_of(p); verif_assert(held[i] == 0, "an object is handed out once"); held[i] = 1; t_own[t][i] = true; }
static bool t_push(int t, int c) {
  int i = -1;
  for (int k = 0; k < kItems; k++) if (t_own[t][k]) { i = k; break; }
  if (i < 0) return false;
  t_own[t][i] = false;
  held[i] = 0;                              // from here others may see it
  for (int n = 0; n < 3; n++) {
    if (slab.Push(c, item(i))) { g_pushed++; return true; }
    auto [cpu, cached] = slab.CacheCpuSlab();
    if (cpu < 0 || !cached) break;
  }
  held[i] = 1;
  t_own[t][i] = true;
  return false;
}
static bool t_pop(int t, int c) {
  for (int n = 0; n < 3; n++) {
    void* p = slab.Pop(c);
    if (p) { t_got(t, p); g_popped++; return true; }
    auto [cpu, cached] = slab.CacheCpuSlab();
    if (cpu < 0 || !cached) break;
  }
  return false;
}
static void t_push_batch(int t, int c, int m) {
  void* b[4]; int id[4], n = 0;
  for (int k = 0; k < kItems && n < m; k++) if (t_own[t][k]) { t_own[t][k] = false; held[k] = 0; id[n] = k; b[n++] = item(k); }
  if (!n) return;
  size_t r = 0;
  for (int k = 0; k < 3 && !r; k++) {
    r = slab.PushBatch(c, b, n);
    if (r) break;
    auto [cpu, cached] = slab.CacheCpuSlab();
    if (cpu < 0 || !cached) break;
  }
  for (int k = 0; k < n - (int)r; k++) { held[id[k]] = 1; t_own[t][id[k]] = true; }
}
static void t_pop_batch(int t, int c, int m) {
  void* b[4];
  size_t r = 0;
  for (int k = 0; k < 3 && !r; k++) {
    r = slab.PopBatch(c, b, m);
    if (r) break;
    auto [cpu, cached] = slab.CacheCpuSlab();
    if (cpu < 0 || !cached) break;
  }
  verif_assert((int)r <= m, "batch");
  for (size_t k = 0; k < r; k++) t_got(t, b[k]);
}
static void t_take(int t, void** b, size_t n) { for (size_t i = 0; i < n; i++) t_got(t, b[i]); }
static void body(int t) {
  rseqm::g.cpu[t] = t_cpu[t];
  verif_assert(IsFast(), "fast");
  int other = 0;                            // remote operations aim at CPU 0
  switch (t_kind[t]) {
    case 0: t_push(t, 1); t_pop(t, 1); break;
    case 1: t_pop(t, 1); t_push(t, 1); break;
    case 2: t_pop(t, 1); t_pop(t, 1); break;
    case 3: t_push(t, 1); t_push(t, 1); break;
    case 4: t_pop_batch(t, 1, 2); t_push_batch(t, 1, 2); break;
    case 5: {
      auto [cpu, cached] = slab.CacheCpuSlab();
      if (cpu >= 0) { size_t r = slab.Grow(cpu, 1, 1, [](uint8_t s) -> size_t { return cls_cap(s, 1); }); capsum[cpu][1] += r; }
      t_push(t, 1);
      break;
    }
    case 6: {
      ScopedSlabCpuStop<kC> st(slab, other);
      size_t r = slab.ShrinkOtherCache(other, 1, 1, [&](size_t, void** b, size_t k) { t_take(t, b, k); });
      capsum[other][1] -= r;
      break;
    }
    case 7: {
      ScopedSlabCpuStop<kC> st(slab, other);
      size_t r = slab.GrowOtherCache(other, 1, 1, [](uint8_t s) -> size_t { return cls_cap(s, 1); });
      capsum[other][1] += r;
      break;
    }
    case 8: slab.Drain(other, [&](int cpu, size_t c, void** b, size_t n, size_t k) { t_take(t, b, n); capsum[cpu][c] -= k; }); break;
    case 9: {
      void* mem = slab_memory();
      shift_now = 9;
      auto info = slab.ResizeSlabs(ToShiftType(9), mem, [&](size_t c) -> size_t { return cls_cap(9, c); }, [](size_t) { return true; },
                                   [&](int cpu, size_t c, void** b, size_t n, size_t k) { t_take(t, b, n); capsum[cpu][c] -= k; });
      wipe(info.old_slabs, info.old_slabs_size);
      break;
    }
    case 11: slab.UncacheCpuSlab(); t_push(t, 1); t_pop(t, 1); break;
    case 10: {
      void* mem = slab_memory();
      PerSizeClassMaxCapacity mc[1] = {{1, 4}};
      auto info = slab.UpdateMaxCapacities(mem, [&](size_t cc) -> size_t { return cls_cap(8, cc); }, [&](int cc, uint16_t v) { max_caps[0][cc] = v; }, [](size_t) { return true; },
                                           [&](int cpu, size_t c, void** b, size_t n, size_t k) { t_take(t, b, n); capsum[cpu][c] -= k; }, mc, 1);
      wipe(info.old_slabs, info.old_slabs_size);
      break;
    }
  }
}
extern "C" void harness_main() {
  int mode = verif_param(0);
  if (mode == 2) { metadata(); return; }
  init();
  if (mode == 0) {
    int steps = verif_param(1), ops = verif_param(4);
    rseqm::g.spurious = verif_param(2);
    rseqm::g.migrations = verif_param(3);
    // somewhere to start from
    for (int c = 1; c < kC; c += 2) { int n = verif_range("start", 0, 2); n = verif_concretize(n); if (n) { do_grow_other(0, c, n + 1); } }
    for (int s = 0; s < steps; s++) {
      int op = verif_concretize(verif_range("op", ops == 0 ? 0 : ops == 1 ? 4 : 0, ops == 0 ? 4 : 11));
      int c = op == 7 || op == 8 || op == 9 ? 1 : verif_concretize(verif_range("class", 0, 1)) ? 3 : 1;
      switch (op) {
        case 0: do_push(c); break;
        case 1: do_pop(c); break;
        case 2: do_push_batch(c, verif_concretize(verif_range("n", 1, 4))); break;
        case 3: do_pop_batch(c, verif_concretize(verif_range("n", 1, 4))); break;
        case 4: do_grow(c, verif_concretize(verif_range("n", 1, 4))); break;
        case 5: do_shrink(verif_concretize(verif_range("cpu", 0, 1)), c, verif_concretize(verif_range("n", 1, 3))); break;
        case 6: do_grow_other(verif_concretize(verif_range("cpu", 0, 1)), c, verif_concretize(verif_range("n", 1, 5))); break;
        case 7: do_drain(verif_concretize(verif_range("cpu", 0, 1))); break;
        case 8: do_resize(); break;
        case 9: do_update(3, verif_concretize(verif_range("cap", 0, 8))); break;
        case 10: rseqm::migrate(1 - rseqm::g.cpu[0]); break;
        case 11: slab.UncacheCpuSlab(); do_push_batch(c, 2); break;
      }
      check("step");
    }
    final_check();
  } else {
    t_kind[0] = verif_param(1);
    t_kind[1] = verif_param(2);
    t_cpu[0] = 0;
    t_cpu[1] = verif_param(3);
    int n = verif_param(5);
    max_caps[0][1] = 4;
    if (t_kind[0] >= 9 || t_kind[1] >= 9) late = verif_concretize(verif_range("late", 0, 1));   // the old slabs go away at once, or some time later
    do_grow_other(0, 1, n + 1);
    do_grow_other(1, 1, 1);
    for (int i = 0; i < n; i++) do_push(1);
    for (int cpu = 0; cpu < 2; cpu++) for (int c = 1; c < kC; c++) capsum[cpu][c] = cap[cpu][c];
    for (int i = 0; i < kItems; i++) if (held[i] == 1 && i < 8) t_own[i & 1][i] = true;
    rseqm::g.spurious = verif_param(4);
    verif_thread([](void*) { body(1); }, nullptr);
    body(0);
    verif_join_all();
    rseqm::g.spurious = 0;
    // collect
    for (int cpu = 0; cpu < 2; cpu++)
      slab.Drain(cpu, [&](int cc, size_t c, void** b, size_t k, size_t cp) {
        verif_assert((int)cp == capsum[cc][c], "the capacity is what was granted and not taken away");
        verif_assert(k <= cp, "no more objects than capacity");
        for (size_t i = 0; i < k; i++) got(b[i]);
      });
    for (int i = 0; i < kItems; i++) verif_assert(held[i] == 1, "no object is lost");
    if (rseqm::g.aborts) verif_reach("aborted");
  }
  if (rseqm::g.aborts) verif_reach("restarted");
  verif_reach("done");
}
