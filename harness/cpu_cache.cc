// Per-CPU caches inside the whole allocator: what the caches hold, what they
// may hold, and who gets the objects, under the kernel model of rseq_model.h.
//  P0 mode: 0 history, 1 two threads
//  P1, P2 the two size classes; P3 cache limit per CPU; P4 steps; P5 largest burst;
//  P6 interruptions, P7 of these migrations; P8 set of operations (bits);
//  mode 1: P4 kind of thread 0, P5 kind of thread 1, P6 cpu of thread 1, P7 objects to start with
#include "e2e.h"
#include "os_model.h"
#include "tcmalloc/transfer_cache.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/page_allocator.h"
#include "tcmalloc/central_freelist.h"
using namespace tcmalloc::tcmalloc_internal;
namespace tcmalloc::tcmalloc_internal { int default_want_disable_dynamic_slabs() { return 1; } }    // lets a harness turn them off
static auto& cc() { return tc_globals.cpu_cache(); }
static constexpr int kMax = 900;
struct Class {
  size_t cl, size, per_span, pages, batch;
  void* held[kMax];
  int n = 0;
  size_t base_cap;
};
static Class k[2];
static size_t limit;
static int ncpu = 2;
static size_t base_pages;
static size_t pages_in_use() {
  PageHeapSpinLockHolder l;
  auto s = tc_globals.page_allocator().stats();
  return (s.system_bytes - s.free_bytes - s.unmapped_bytes) / kPageSize;
}
static void budget() {
  uint64_t sum = 0, used = 0;
  for (int cpu = 0; cpu < ncpu; cpu++) {
    uint64_t cap = cc().Capacity(cpu), idle = cc().Unallocated(cpu), given = cc().Allocated(cpu);
    verif_assert(given + idle == cap, "a CPU's classes and its slack add up to its capacity");
    verif_assert(idle <= cap, "the slack is within the capacity");
    sum += cap;
    uint64_t u = 0;
    for (int i = 0; i < 2; i++) {
      size_t c = cc().GetCapacityOfSizeClass(cpu, k[i].cl);
      size_t top = 0;
      auto b = cc().GetPerCpuSlabShiftBounds();
      for (int s = b.initial_shift; s <= b.max_shift; s++) top = std::max<size_t>(top, cc().GetMaxCapacity(k[i].cl, s));
      verif_assert(!cc().HasPopulated(cpu) || c <= top, "a class's capacity is at most its maximum");
    }
    used += cc().UsedBytes(cpu);
    verif_assert(cc().UsedBytes(cpu) <= given, "the caches hold no more than they were given");
  }
  verif_assert(sum == ncpu * limit, "capacity only moves between CPUs");
  verif_assert(cc().TotalUsedBytes() == used, "the total is the sum over CPUs");
}
static size_t cached(const Class& c) { return cc().TotalObjectsOfClass(c.cl); }
static void conserve() {
  size_t want_pages = base_pages;
  uint64_t bytes = 0;
  for (int i = 0; i < 2; i++) {
    Class& c = k[i];
    size_t out = cached(c) + tc_globals.transfer_cache().tc_length(c.cl) + tc_globals.sharded_transfer_cache().TotalObjectsOfClass(c.cl) + c.n;
    bytes += cached(c) * c.size;
    if (c.per_span == 1) { want_pages += out * c.pages; continue; }
    SpanStats s = tc_globals.central_freelist(c.cl).GetSpanStats();
    verif_assert(s.obj_capacity == tc_globals.central_freelist(c.cl).length() + out, "every object is in exactly one place");
    want_pages += s.obj_capacity / c.per_span * c.pages;
  }
  verif_assert(pages_in_use() == want_pages, "no span is lost");
  verif_assert(cc().TotalUsedBytes() == bytes, "the caches hold only what was put there");
}
static void take(Class& c) {
  void* p = TCMallocInternalNew(c.size);
  verif_assert(p != nullptr, "ordinary request");
  verif_assert(tc_globals.pagemap().sizeclass(PageIdContaining(p)) == c.cl, "an object of its class");
  for (int i = 0; i < 2; i++) for (int j = 0; j < k[i].n; j++) verif_assert(k[i].held[j] != p, "an object in use was handed out again");
  c.held[c.n++] = p;
}
static void give(Class& c, int at) {
  void* p = c.held[at];
  c.held[at] = c.held[--c.n];
  TCMallocInternalDeleteSized(p, c.size);
}
static void touch_cpu(int cpu) { rseqm::migrate(cpu); }
static void maintain(int op) {
  int adv = os.madvises;
  struct R { int op, adv; ~R() { if (os.madvises > adv) { if (op == 3) verif_reach("slab resized"); if (op == 4) verif_reach("capacities changed"); if (op == 1) verif_reach("slab given back"); } } } r{op, adv};
  switch (op) {
    case 0: cc().ShuffleCpuCaches(); break;
    case 1: cc().TryDrainingCaches(); break;
    case 2: cc().ResizeSizeClasses(); break;
    case 3: cc().ResizeSlabIfNeeded(); break;
    case 4: cc().ResizeSizeClassMaxCapacities(); break;
    case 5: case 6: {
      int cpu = op - 5;
      uint64_t was = cc().UsedBytes(cpu);
      uint64_t got = cc().Drain(cpu);
      verif_assert(got == was, "draining reports the bytes that were cached");
      verif_assert(cc().UsedBytes(cpu) == 0 && cc().Allocated(cpu) == 0, "draining empties the cache");
      break;
    }
  }
}
static void fits() {      // the slab has room for what the classes may hold
  auto b = cc().GetPerCpuSlabShiftBounds();
  for (int s = b.initial_shift; s <= b.max_shift; s++) {
    size_t need = 8 * kNumClasses;
    for (size_t c = 1; c < kNumClasses; c++) if (size_t m = cc().GetMaxCapacity(c, s)) need += 8 * (m + 1);
    verif_assert(need <= (size_t{1} << s), "the maximum capacities fit the slab");
  }
}
// as a program that sets the limit before it allocates
struct Early { Early() {
  if (verif_param(0) == 0 && verif_param(8) & 4096) { ncpu = 16; kPossible = "0-15\n"; rseqm::g.ncpu = 16; TCMalloc_Internal_SetPerCpuCachesDynamicSlabEnabled(false); TCMalloc_Internal_SetReleaseDrainedSlabMetadata(true); }
  MallocExtension_Internal_SetMaxPerCpuCacheSize(verif_param(3)); } } early;
static void init() {
  TCMalloc_Internal_SetProfileSamplingInterval(0);
  limit = verif_param(3);
  for (int i = 0; i < 2; i++) {
    Class& c = k[i];
    c.cl = verif_param(1 + i);
    c.size = tc_globals.sizemap().class_to_size(c.cl);
    c.pages = tc_globals.sizemap().class_to_pages(c.cl).raw_num();
    c.per_span = tc_globals.sizemap().class_to_pages(c.cl).in_bytes() / c.size;
    c.batch = tc_globals.sizemap().num_objects_to_move(c.cl);
  }
  for (int cpu = 0; cpu < ncpu; cpu++) cc().Drain(cpu);     // what constructors left
  for (int i = 0; i < 2; i++) { take(k[i]); }
  verif_assert(tc_globals.CpuCacheActive(), "active");
  size_t own = 0;
  for (int i = 0; i < 2; i++) {
    Class& c = k[i];
    size_t out = cached(c) + tc_globals.transfer_cache().tc_length(c.cl) + tc_globals.sharded_transfer_cache().TotalObjectsOfClass(c.cl) + c.n;
    own += c.per_span == 1 ? out * c.pages : tc_globals.central_freelist(c.cl).GetSpanStats().obj_capacity / c.per_span * c.pages;
  }
  base_pages = pages_in_use() - own;
  budget();
  conserve();
}
static void finish(bool full = true) {
  rseqm::g.spurious = 0;
  for (int i = 0; i < 2; i++) while (k[i].n) give(k[i], k[i].n - 1);
  if (full) conserve();
  for (int cpu = 0; cpu < ncpu; cpu++) { cc().Drain(cpu); }
  budget();
  conserve();
  for (int cpu = 0; cpu < ncpu; cpu++) verif_assert(cc().Unallocated(cpu) == cc().Capacity(cpu), "an empty cache has all its capacity to give");
  verif_assert(cc().TotalUsedBytes() == 0, "nothing is left");
}
static int pick(const char* n, int lo, int hi) { return verif_concretize(verif_range(n, lo, hi)); }
static void history() {
  int steps = verif_param(4), burst = verif_param(5), ops = verif_param(8);
  if (ops & 256) {           // the other CPU has been used before, and is idle
    touch_cpu(1);
    take(k[1]); take(k[0]); give(k[0], k[0].n - 1); give(k[1], k[1].n - 1);
    touch_cpu(0);
  }
  if (ops & 4096) for (int cpu = 15; cpu >= 0; cpu--) {   // CPUs that have been used, and are idle
    touch_cpu(cpu);
    if (cpu < 10) { take(k[1]); give(k[1], k[1].n - 1); }
  }
  if (ops & 512) { for (int i = 0; i < burst; i++) take(k[0]); for (int i = 0; i < burst; i++) take(k[1]); }
  if (ops & 1024) while (k[0].n > 1) give(k[0], 0);
  rseqm::g.spurious = verif_param(6);
  rseqm::g.migrations = verif_param(7);
  for (int s = 0; s < steps; s++) {
    int kind = pick("kind", 0, (ops & 127) ? 2 : 1);
    if (kind < 2) {
      int w = (ops & 128) ? pick("class", 0, 1) : 0;
      int n = pick("n", 1, burst);
      for (int i = 0; i < n; i++) {
        if (kind == 0) take(k[w]);
        else if (k[w].n) give(k[w], (ops & 2048) ? 0 : k[w].n - 1);
      }
      verif_reach(kind ? "freed" : "allocated");
    } else {
      int list[8], n = 0;
      for (int i = 0; i < 7; i++) if (ops >> i & 1) list[n++] = i;
      list[n++] = 7;
      int op = list[pick("op", 0, n - 1)];
      if (op == 7) touch_cpu(ncpu == 2 ? 1 - rseqm::g.cpu[0] : pick("cpu", 0, 1) ? 9 : 14);
      else maintain(op);
      if (op == 4) fits();
    }
    budget();
    conserve();
  }
  for (int cpu = 0; cpu < ncpu; cpu++) if (cc().Capacity(cpu) > limit) verif_reach("stolen");
  if (cc().GetNumResizes()) verif_reach("resized");
  if (cc().GetNumDrains()) verif_reach("drained");
  if (cc().GetNumUnpopulates()) verif_reach("unpopulated");
  if (rseqm::g.aborts) verif_reach("restarted");
  finish();
}
// ---- two threads
static int t_kind[2], t_cpu[2];
static void* mine[2][64];
static int nmine[2];
static void t_take(int t, Class& c) {
  void* p = TCMallocInternalNew(c.size);
  verif_assert(p != nullptr, "ordinary request");
  for (int i = 0; i < 2; i++) for (int j = 0; j < nmine[i]; j++) verif_assert(mine[i][j] != p, "an object in use was handed out again");
  mine[t][nmine[t]++] = p;
}
static void t_give(int t, Class& c) {
  if (!nmine[t]) return;
  void* p = mine[t][--nmine[t]];
  TCMallocInternalDeleteSized(p, c.size);
}
static void body(int t) {
  rseqm::g.cpu[t] = t_cpu[t];
  Class& c = k[0];
  switch (t_kind[t]) {
    case 10: t_take(t, c); break;
    case 11: t_give(t, c); break;
    case 12: t_take(t, c); t_give(t, c); break;
    case 13: t_give(t, c); t_take(t, c); break;
    case 14: cc().Drain(0); break;
    default: maintain(t_kind[t]);
  }
}
static void threads() {
  t_kind[0] = verif_param(4);
  t_kind[1] = verif_param(5);
  t_cpu[0] = 0;
  t_cpu[1] = verif_param(6);
  int start = pick("cached", verif_param(9), verif_param(7));
  Class& c = k[0];
  touch_cpu(1);
  take(c); give(c, c.n - 1);
  touch_cpu(0);
  while (c.n < start + 4) take(c);
  while (c.n > 4) give(c, c.n - 1);
  while (c.n > 0) { mine[c.n & 1][nmine[c.n & 1]++] = c.held[c.n - 1]; c.n--; }
  verif_thread([](void*) { body(1); }, nullptr);
  body(0);
  verif_join_all();
  for (int t = 0; t < 2; t++) for (int i = 0; i < nmine[t]; i++) c.held[c.n++] = mine[t][i];
  budget();
  conserve();
  if (rseqm::g.aborts) verif_reach("restarted");
  finish(false);
}
extern "C" void harness_main() {
  init();
  if (verif_param(0) == 0) history(); else threads();
  verif_reach("done");
}
