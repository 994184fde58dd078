// Transfer caches between the front end and the central free lists, inside
// the whole allocator.
#include "e2e.h"
#include "tcmalloc/transfer_cache.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/page_allocator.h"
#include "tcmalloc/central_freelist.h"
using namespace tcmalloc::tcmalloc_internal;
static const int kMax = 600;
static void* held[kMax];
static int nheld;
static size_t cl, size, per_span, batch;
static SpanStats base;
static size_t pages, base_pages;
static size_t pages_in_use() {
  PageHeapSpinLockHolder l;
  auto s = tc_globals.page_allocator().stats();
  return (s.system_bytes - s.free_bytes - s.unmapped_bytes) / kPageSize;
}
static auto& tc() { return tc_globals.transfer_cache(); }
static void take_note(void* p) {
  verif_assert(tc_globals.pagemap().sizeclass(PageIdContaining(p)) == cl, "an object of another class was handed out");
  verif_assert((uintptr_t)p % 8 == 0, "an object is misaligned");
  for (int j = 0; j < nheld; ++j) verif_assert(held[j] != p, "an object in use was handed out again");
  held[nheld++] = p;
}
static size_t sharded_length() { return tc_globals.sharded_transfer_cache().TotalObjectsOfClass(cl); }
static void check() {
  auto st = tc().GetStats(cl);
  verif_assert(st.used <= st.capacity && st.capacity <= st.max_capacity, "a cache holds more than its capacity or the capacity exceeds its maximum");
  verif_assert(st.used == tc().tc_length(cl), "a cache's length and its statistics differ");
  if (per_span == 1) {
    verif_assert(pages_in_use() == base_pages + (st.used + nheld) * pages, "objects were lost or duplicated between the caches");
    return;
  }
  SpanStats s = tc().central_freelist(cl).GetSpanStats();
  size_t cap = s.obj_capacity - base.obj_capacity;
  size_t in_list = tc().central_freelist(cl).length();
  verif_assert(cap == in_list + st.used + sharded_length() + nheld, "objects were lost or duplicated between the caches");
}
static size_t remove(size_t n) {
  void* b[kMaxObjectsToMove];
  size_t got = tc().RemoveRange(cl, absl::MakeSpan(b, n));
  verif_assert(got >= 1 && got <= n, "RemoveRange returned an impossible count");
  for (size_t i = 0; i < got; ++i) take_note(b[i]);
  return got;
}
static void insert(int from, int n) {
  void* b[kMaxObjectsToMove];
  for (int i = 0; i < n; ++i) b[i] = held[from + i];
  for (int i = from; i + n < nheld; ++i) held[i] = held[i + n];
  nheld -= n;
  tc().InsertRange(cl, absl::MakeSpan(b, n));
}
static void drain_plunder() {
  tc().TryPlunder();
  verif_assert(tc().tc_length(cl) <= tc().GetStats(cl).capacity, "length above capacity");
}
static void init(size_t c) {
  cl = c;
  size = tc_globals.sizemap().class_to_size(cl);
  per_span = tc_globals.sizemap().class_to_pages(cl).in_bytes() / size;
  batch = tc_globals.sizemap().num_objects_to_move(cl);
  void* b[kMaxObjectsToMove];
  while (tc().tc_length(cl)) (void)tc().RemoveRange(cl, absl::MakeSpan(b, 1));
  while (per_span > 1 && tc().central_freelist(cl).length()) (void)tc().RemoveRange(cl, absl::MakeSpan(b, 1));
  pages = tc_globals.sizemap().class_to_pages(cl).raw_num();
  base_pages = pages_in_use();
  base = tc().central_freelist(cl).GetSpanStats();
  (void)tc().FetchCommitIntervalMisses(cl);
}
static size_t total_capacity() {
  size_t t = 0;
  for (int i = 0; i < (int)kNumBaseClasses; ++i) t += tc().GetStats(i).capacity * (tc_globals.sizemap().num_objects_to_move(i) ? 1 : 0) / (tc_globals.sizemap().num_objects_to_move(i) ? tc_globals.sizemap().num_objects_to_move(i) : 1);
  return t;
}
// ---- concurrent use
static void* mine[3][64];
static int nmine[3];
static void do_op(int t, int op) {
  void* b[kMaxObjectsToMove];
  switch (op) {
    case 0: { size_t got = tc().RemoveRange(cl, absl::MakeSpan(b, 2)); for (size_t i = 0; i < got; ++i) mine[t][nmine[t]++] = b[i]; break; }
    case 1: { int n = nmine[t] < 2 ? nmine[t] : 2; if (!n) break; for (int i = 0; i < n; ++i) b[i] = mine[t][--nmine[t]]; tc().InsertRange(cl, absl::MakeSpan(b, n)); break; }
    case 2: tc().TryPlunder(); break;
    case 3: (void)tc().ShrinkCache(cl); break;
    case 4: (void)tc().IncreaseCacheCapacity(cl); break;
  }
}
static int script[3][3], nops;
static void worker(void* a) { int t = (int)(intptr_t)a; for (int i = 0; i < nops; ++i) do_op(t, script[t][i]); }
void harness_main() {
  TCMalloc_Internal_SetProfileSamplingInterval(0);
  TCMallocInternalFree(TCMallocInternalMalloc(1000000));
  const int mode = verif_param(0);
  init(verif_param(1));
  if (mode == 0) {                            // histories
    const int ops = verif_param(2), pre = verif_param(3);
    while (nheld < pre) remove(std::min<size_t>(batch, pre - nheld));
    check();
    size_t prev_len = 0; bool quiet = false;
    for (int i = 0; i < ops; ++i) {
      size_t cap = tc().GetStats(cl).capacity;
      switch (verif_choice(5, "op")) {
        case 0: remove(1 + verif_choice(std::min<size_t>(batch, verif_param(4)), "n")); quiet = false; break;
        case 1: {
          if (!nheld) verif_end_path();
          int n = 1 + verif_choice(std::min<size_t>({batch, (size_t)nheld, (size_t)verif_param(4)}), "n");
          insert(verif_choice(std::min(nheld - n + 1, 2), "from"), n);
          quiet = false;
          break;
        }
        case 2:
          prev_len = tc().tc_length(cl);
          tc().TryPlunder();
          verif_assert(tc().tc_length(cl) <= prev_len, "plundering added objects");
          if (quiet) verif_assert(tc().tc_length(cl) == 0, "objects untouched since the last plunder stayed");
          quiet = true;
          verif_reach("plundered");
          break;
        case 3: {
          bool r = tc().ShrinkCache(cl);
          verif_assert(tc().GetStats(cl).capacity == (r ? cap - batch : cap), "shrinking changed the capacity by something else than a batch");
          if (!r) verif_assert(cap <= batch, "a shrinkable cache was not shrunk");
          verif_reach("shrunk");
          break;
        }
        case 4: {
          bool can = tc().CanIncreaseCapacity(cl);
          bool r = tc().IncreaseCacheCapacity(cl);
          verif_assert(r == can, "the cache grew although it could not, or the other way round");
          verif_assert(tc().GetStats(cl).capacity == (r ? cap + batch : cap), "growing changed the capacity by something else than a batch");
          break;
        }
      }
      check();
    }
    while (nheld) insert(0, std::min<int>(nheld, batch));
    tc().TryPlunder();
    tc().TryPlunder();
    check();
    verif_assert(tc().tc_length(cl) == 0, "objects untouched for a full plunder cycle stayed");
    verif_assert(tc().central_freelist(cl).GetSpanStats().num_live_spans() == base.num_live_spans(), "an unused span was kept");
    verif_assert(pages_in_use() == base_pages, "pages of unused spans were kept");
    verif_reach("done");
  } else if (mode == 1) {                     // resizing between classes
    static const int kC[] = {28, 33, 36, 44, 46, 47};
    size_t before = total_capacity();
    void* b[kMaxObjectsToMove];
    for (int r = 0; r < verif_param(2); ++r) {
      size_t c = kC[verif_choice(6, "class")];
      size_t n = 1 + verif_choice(2, "n");
      n = std::min(n, (size_t)tc_globals.sizemap().num_objects_to_move(c));
      size_t got = tc().RemoveRange(c, absl::MakeSpan(b, n));
      if (verif_choice(2, "return")) tc().InsertRange(c, absl::MakeSpan(b, got));
      if (verif_choice(2, "resize")) {
        tc().TryResizingCaches();
        verif_assert(total_capacity() == before, "resizing created or destroyed capacity");
        verif_reach("resized");
      }
      for (int i = 0; i < (int)kNumBaseClasses; ++i) { auto st = tc().GetStats(i); verif_assert(st.used <= st.capacity && st.capacity <= st.max_capacity, "a cache holds more than its capacity or the capacity exceeds its maximum"); }
    }
    verif_reach("done");
  } else if (mode == 2) {                     // two threads on one class
    nops = verif_param(2);
    // some objects cached, some with each thread
    while (nheld < 8) remove(2);
    for (int t = 1; t <= 2; ++t) for (int i = 0; i < 2; ++i) mine[t][nmine[t]++] = held[--nheld];
    while (nheld) insert(0, std::min<int>(nheld, 2));
    if (verif_choice(2, "aged")) tc().TryPlunder();
    for (int t = 1; t <= 2; ++t) for (int i = 0; i < nops; ++i) script[t][i] = verif_choice(5, "op");
    verif_thread(worker, (void*)1);
    verif_thread(worker, (void*)2);
    verif_join_all();
    for (int t = 1; t <= 2; ++t) for (int i = 0; i < nmine[t]; ++i) take_note(mine[t][i]);
    check();
    for (int i = 0; i < 4; ++i) remove(2);
    check();
    verif_reach("done");
  }
}
