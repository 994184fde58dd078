// One transfer cache with symbolic capacities, batch size and request sizes
// over a free list that only remembers which objects it holds.
#include <cstring>
#include <new>
#include "tcmalloc/transfer_cache_internals.h"
#include "absl/types/span.h"
#include "verif.h"
using namespace tcmalloc::tcmalloc_internal;
static const int kTokens = 40;
static int where[kTokens + 1];              // 0 unused, 1 list, 2 caller, 3 cache
static int nfresh = 0;
static int id(void* p) { uintptr_t v = (uintptr_t)p; verif_assert(v >= 8 && v <= 8 * kTokens && v % 8 == 0, "something that never was an object was handed over"); return (int)(v / 8); }
static size_t gBatch, gCap, gMax;
struct FakeList {
  void* stack[kTokens]; int n = 0;
  void Init(size_t) {}
  void InsertRange(absl::Span<void*> b) {
    verif_assert(!b.empty() && b.size() <= gBatch, "the list was given an impossible batch");
    for (void* p : b) { int i = id(p); verif_assert(where[i] == 3 || where[i] == 2, "an object reached the list twice"); where[i] = 1; stack[n++] = p; }
  }
  int RemoveRange(absl::Span<void*> b) {
    verif_assert(!b.empty() && b.size() <= gBatch, "the list was asked for an impossible batch");
    int k = 0, want = 1 + verif_choice(2, "short") * ((int)b.size() - 1);   // may return less than asked
    while (k < want) {
      void* p;
      if (n) p = stack[--n]; else { if (nfresh == kTokens) verif_end_path(); p = (void*)(uintptr_t)(8 * ++nfresh); }
      where[id(p)] = 2;
      b[k++] = p;
    }
    return k;
  }
};
struct FakeManager {
  static size_t class_to_size(int) { return 64; }
  static size_t num_objects_to_move(int) { return gBatch; }
  static void* Alloc(size_t n, std::align_val_t = std::align_val_t{8}) { static char mem[4096]; verif_assert(n <= sizeof mem, "slots larger than the capacity"); return mem; }
};
using Cache = internal_transfer_cache::TransferCache<FakeList, FakeManager>;
static void* held[kTokens];
static int nheld;
alignas(64) static char space[sizeof(Cache)];
void harness_main() {
  gBatch = verif_range("batch", 2, verif_param(1));
  gCap = verif_range("capacity", 0, verif_param(2));
  gMax = verif_range("max", 0, verif_param(2));
  verif_assume(gCap <= gMax);
  FakeManager m;
  Cache* c = new (space) Cache(&m, 1, {(int)gCap, (int)gMax});
  auto take = [&](size_t n) {
    void* b[kMaxObjectsToMove];
    int got = c->RemoveRange(1, absl::MakeSpan(b, n));
    verif_assert(got >= 1 && (size_t)got <= n, "RemoveRange returned an impossible count");
    for (int i = 0; i < got; ++i) { int t = id(b[i]); verif_assert(where[t] == 2 || where[t] == 3, "an object in the list was handed out"); for (int j = 0; j < nheld; ++j) verif_assert(held[j] != b[i], "an object in use was handed out again"); where[t] = 2; held[nheld++] = b[i]; }
  };
  auto check = [&] {
    auto st = c->GetStats();
    verif_assert(st.used <= st.capacity && st.capacity <= st.max_capacity && st.max_capacity == gMax, "0 <= used <= capacity <= maximum is broken");
    verif_assert(c->tc_length() == st.used, "a cache's length and its statistics differ");
    verif_assert((int)st.used + c->freelist().n + nheld == nfresh, "objects were lost or duplicated");
    verif_assert(c->HasSpareCapacity(1) == (st.capacity >= st.used + gBatch), "spare capacity is misreported");
  };
  size_t hits = 0;
  bool quiet = false;
  for (int op = 0; op < verif_param(0); ++op) {
    auto st = c->GetStats();
    switch (verif_choice(5, "op")) {
      case 0: { size_t n = verif_range("n", 1, gBatch); take(n); quiet = false; break; }
      case 1: {
        if (!nheld) verif_end_path();
        size_t n = verif_range("n", 1, nheld < (int)gBatch ? nheld : gBatch);
        void* b[kMaxObjectsToMove];
        n = verif_concretize(n);
        for (size_t i = 0; i < n; ++i) { b[i] = held[--nheld]; where[id(b[i])] = 3; }
        int before = c->freelist().n;
        c->InsertRange(1, absl::MakeSpan(b, n));
        size_t room = st.capacity - st.used, in = room < n ? room : n;
        verif_assert(c->tc_length() == st.used + in && (size_t)(c->freelist().n - before) == n - in, "an insertion did not use the room there was");
        quiet = false;
        break;
      }
      case 2: {
        c->TryPlunder(1);
        verif_assert(c->tc_length() <= st.used, "plundering added objects");
        if (quiet) verif_assert(c->tc_length() == 0, "objects untouched since the last plunder stayed");
        quiet = true;
        verif_reach("plundered");
        break;
      }
      case 3: {
        bool r = c->ShrinkCache(1);
        verif_assert(r == (st.capacity > gBatch), "the cache was shrunk although it could not be, or the other way round");
        verif_assert(c->GetStats().capacity == (r ? st.capacity - gBatch : st.capacity), "shrinking changed the capacity by something else than a batch");
        if (r) verif_reach("shrunk");
        break;
      }
      case 4: {
        bool r = c->IncreaseCacheCapacity(1);
        verif_assert(r == (st.capacity + gBatch <= gMax), "the cache grew past its maximum or refused to grow");
        verif_assert(c->GetStats().capacity == (r ? st.capacity + gBatch : st.capacity), "growing changed the capacity by something else than a batch");
        if (r) verif_reach("grown");
        break;
      }
    }
    check();
  }
  (void)hits;
  while (c->tc_length()) take(1);
  check();
  for (int t = 1; t <= nfresh; ++t) {
    int seen = 0;
    for (int j = 0; j < nheld; ++j) seen += held[j] == (void*)(uintptr_t)(8 * t);
    for (int j = 0; j < c->freelist().n; ++j) seen += c->freelist().stack[j] == (void*)(uintptr_t)(8 * t);
    verif_assert(seen == 1, "an object was lost or duplicated");
  }
  verif_reach("done");
}
