// Per-thread caches inside the whole allocator.
#include "e2e.h"
#include "tcmalloc/transfer_cache.h"
#include "tcmalloc/central_freelist.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/page_allocator.h"
#include "tcmalloc/thread_cache.h"
using namespace tcmalloc::tcmalloc_internal;
static const int kMax = 400;
static const int kClasses = 2;
static size_t cls[kClasses], size[kClasses], per_span[kClasses], base_objects[kClasses];
static void* held[kClasses][kMax];
static int nheld[kClasses];
static size_t pages_in_use() {
  PageHeapSpinLockHolder l;
  auto s = tc_globals.page_allocator().stats();
  return (s.system_bytes - s.free_bytes - s.unmapped_bytes) / kPageSize;
}
static size_t base_pages;
static size_t cached(int i, uint64_t* bytes = nullptr) {
  uint64_t total = 0; static uint64_t count[kNumClasses];
  for (auto& c : count) c = 0;
  (void)ThreadCache::GetStats(&total, count);
  uint64_t sum = 0;
  for (size_t c = 0; c < kNumClasses; ++c) sum += count[c] * tc_globals.sizemap().class_to_size(c);
  verif_assert(sum == total, "the bytes a thread cache counts are not the bytes it holds");
  if (bytes) *bytes = total;
  return count[cls[i]];
}
// objects of the class outside the spans, as the layers count them
static size_t objects(int i) {
  auto& l = tc_globals.central_freelist(cls[i]);
  return l.GetSpanStats().obj_capacity - l.length() - tc_globals.transfer_cache().tc_length(cls[i]) - cached(i);
}
static void check() {
  for (int i = 0; i < kClasses; ++i)
    if (per_span[i] > 1) verif_assert(objects(i) == base_objects[i] + nheld[i], "objects were lost or duplicated between the caches");
}
static void note(int i, void* p) {
  verif_assert(p != nullptr && tc_globals.pagemap().sizeclass(PageIdContaining(p)) == cls[i], "an object of another class was handed out");
  for (int j = 0; j < nheld[i]; ++j) verif_assert(held[i][j] != p, "an object in use was handed out again");
  *(uint64_t*)p = (uintptr_t)p ^ 0x5555; *(uint64_t*)((char*)p + size[i] - 8) = (uintptr_t)p ^ 0x5555;
  held[i][nheld[i]++] = p;
}
static void* unnote(int i, int j) {
  void* p = held[i][j];
  verif_assert(*(uint64_t*)p == ((uintptr_t)p ^ 0x5555) && *(uint64_t*)((char*)p + size[i] - 8) == ((uintptr_t)p ^ 0x5555), "the contents of an object in use changed");
  held[i][j] = held[i][--nheld[i]];
  return p;
}
static void* mine[3][64]; static int nmine[3], script[3][4], nops;
static void op(int t, int o) {
  size_t c = cls[0];
  switch (o) {
    case 0: { void* p = ThreadCache::GetCache()->Allocate(c); verif_assert(p, "no object"); mine[t][nmine[t]++] = p; break; }
    case 1: if (nmine[t]) ThreadCache::GetCache()->Deallocate(mine[t][--nmine[t]], c); break;
    case 2: for (int i = 0; i < 3; ++i) mine[t][nmine[t]++] = ThreadCache::GetCache()->Allocate(c); break;
    case 3: while (nmine[t]) ThreadCache::GetCache()->Deallocate(mine[t][--nmine[t]], c); break;
    case 4: { uint64_t total = 0; (void)ThreadCache::GetStats(&total, nullptr); break; }
  }
}
static void worker(void* a) { int t = (int)(intptr_t)a; for (int i = 0; i < nops; ++i) op(t, script[t][i]); ThreadCache::BecomeIdle(); }
void harness_main() {
  TCMalloc_Internal_SetProfileSamplingInterval(0);
  TCMallocInternalFree(TCMallocInternalMalloc(1000000));
  const int mode = verif_param(0);
  for (int i = 0; i < kClasses; ++i) {
    cls[i] = mode == 2 ? 1 : verif_param(1 + i);
    size[i] = tc_globals.sizemap().class_to_size(cls[i]);
    per_span[i] = tc_globals.sizemap().class_to_pages(cls[i]).in_bytes() / size[i];
  }
  for (int i = 0; i < kClasses; ++i) base_objects[i] = per_span[i] > 1 ? objects(i) : 0;
  base_pages = pages_in_use();
  if (mode == 0) {
    const int ops = verif_param(3), run = verif_param(4);
    for (int k = 0; k < ops; ++k) {
      uint64_t o = verif_choice(4, "op");
      int i = verif_choice(kClasses, "class");
      if (o == 0) {                            // a run of allocations
        int n = 1 + verif_choice(3, "run") * run;
        for (int j = 0; j < n; ++j) note(i, ThreadCache::GetCache()->Allocate(cls[i]));
      } else if (o == 1) {                     // a run of releases, in either order
        if (!nheld[i]) verif_end_path();
        int n = verif_choice(2, "all") ? nheld[i] : 1;
        bool fifo = verif_choice(2, "fifo");
        for (int j = 0; j < n; ++j) ThreadCache::GetCache()->Deallocate(unnote(i, fifo ? 0 : nheld[i] - 1), cls[i]);
      } else if (o == 2) {
        if (i) verif_end_path();
        ThreadCache::BecomeIdle();
        uint64_t bytes;
        cached(0, &bytes);
        verif_assert(bytes == 0, "an idle thread keeps cached objects");
        verif_reach("idle");
      } else {
        size_t before = ThreadCache::overall_thread_cache_size();
        size_t want = i ? 512 << 10 : 64 << 20;
        ThreadCache::set_overall_thread_cache_size(want);
        verif_assert(ThreadCache::overall_thread_cache_size() == want, "the cache limit was not taken");
        (void)before;
      }
      check();
    }
    for (int i = 0; i < kClasses; ++i) while (nheld[i]) ThreadCache::GetCache()->Deallocate(unnote(i, 0), cls[i]);
    check();
    ThreadCache::BecomeIdle();
    check();
    tc_globals.transfer_cache().TryPlunder(); tc_globals.transfer_cache().TryPlunder();
    check();
    if (per_span[0] == 1 && per_span[1] == 1) verif_assert(pages_in_use() <= base_pages, "pages of unused spans were kept");
    verif_reach("done");
  } else if (mode == 2) {
    // requests of any size through the public functions
    const int ops = verif_param(3);
    static size_t outside[kNumClasses];
    static uint64_t in_threads[kNumClasses];
    auto refresh = [&] { uint64_t total = 0; for (auto& x : in_threads) x = 0; (void)ThreadCache::GetStats(&total, in_threads); };
    refresh();
    auto count = [&](size_t c) -> size_t {
      auto& l = tc_globals.central_freelist(c);
      return l.GetSpanStats().obj_capacity - l.length() - tc_globals.transfer_cache().tc_length(c) - in_threads[c];
    };
    for (size_t c = 1; c < kNumClasses; ++c) outside[c] = count(c);
    void* p[8]; size_t n[8], cl[8]; int live = 0;
    for (int k = 0; k < ops; ++k) {
      if (live && verif_choice(2, "op")) {
        int j = verif_choice(live, "which");
        for (size_t b = 0; b < 8; ++b) { size_t at = n[j] > 8 ? n[j] - 8 + b : b; if (at < n[j]) verif_assert(((uint8_t*)p[j])[at] == (uint8_t)(0x40 + j), "the contents of an object in use changed"); }
        if (verif_choice(2, "sized")) TCMallocInternalFreeSized(p[j], n[j]); else TCMallocInternalFree(p[j]);
        --outside[cl[j]];
        // the last one takes the place of the released one
        --live;
        if (j != live) {
          p[j] = p[live]; n[j] = n[live]; cl[j] = cl[live];
          for (size_t b = 0; b < 8; ++b) { size_t at = n[j] > 8 ? n[j] - 8 + b : b; if (at < n[j]) ((uint8_t*)p[j])[at] = 0x40 + j; }
        }
      } else {
        size_t want = verif_range("n", verif_param(1), verif_param(2));
        uint8_t* q = (uint8_t*)TCMallocInternalMalloc(want);
        size_t us = TCMallocInternalMallocSize(q);
        verif_assert(q && us >= want, "too little memory");
        for (int j = 0; j < live; ++j) { size_t o = TCMallocInternalMallocSize(p[j]); verif_assert(q + us <= (uint8_t*)p[j] || (uint8_t*)p[j] + o <= q, "two live allocations overlap"); }
        p[live] = q; n[live] = want; cl[live] = tc_globals.pagemap().sizeclass(PageIdContaining(q));
        verif_assert(tc_globals.sizemap().class_to_size(cl[live]) == us, "usable size and size class disagree");
        ++outside[cl[live]];
        for (size_t b = 0; b < 8; ++b) { size_t at = want > 8 ? want - 8 + b : b; if (at < want) q[at] = 0x40 + live; }
        ++live;
      }
      refresh();
      for (size_t c = 1; c < kNumBaseClasses; ++c) if (tc_globals.central_freelist(c).objects_per_span() > 1) verif_assert(count(c) == outside[c], "objects were lost or duplicated between the caches");
    }
    while (live) TCMallocInternalFree(p[--live]);
    verif_reach("done");
  } else {
    nops = verif_param(3);
    for (int t = 1; t <= 2; ++t) for (int i = 0; i < nops; ++i) script[t][i] = verif_choice(5, "op");
    verif_thread(worker, (void*)1);
    verif_thread(worker, (void*)2);
    verif_join_all();
    for (int t = 1; t <= 2; ++t) for (int i = 0; i < nmine[t]; ++i) note(0, mine[t][i]);
    check();
    verif_assert(cached(0) == 0, "threads that went idle left cached objects");
    verif_reach("done");
  }
}
