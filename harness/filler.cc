// Hugepage filler: short histories of allocation, release to the OS and
// deallocation over a few hugepages, checked against a page-by-page shadow.
//  P0 steps, P1 donations and dense, P2/P3 a full hugepage first, P4 time, P5 split quantities at once,
//  P6 treatment of hugepages (1 on, 2 unbacked counts as released, 4 stale, 8 two to start from, 16 released), P7 operations meanwhile
#include "tcmalloc/huge_page_filler.h"
#include "tcmalloc/huge_page_tracker.h"
#include "verif.h"
using namespace tcmalloc::tcmalloc_internal;
constexpr int P = kPagesPerHugePage.raw_num();
constexpr int kHP = 4;
static const uintptr_t kBase = 0x100000000000;
static int64_t t_now = 1;
static int64_t now() { return t_now; }
static double freq() { return 1000; }
struct Shadow { bool managed; bool live[P]; bool released[P]; bool dense; bool donated; } sh[kHP];
static PageTracker* tr[kHP];
alignas(64) static char trbuf[kHP][sizeof(PageTracker)];
static bool fail_unback, releasing;
static Length pending;   // pages unbacked on other occasions, reported by the next release
static bool limbo[kHP];          // emptied while being treated: handed back afterwards
static int treating = -1, collapsing = -1, injections, treat_calls; // hugepage being looked at
static int pick0(const char* n, int hi) { return verif_concretize(verif_range(n, 0, hi)); }
static void inject(int where);
static int unback_calls, whole_unbacks;
static HugePage hp(int i) { return HugePageContaining(reinterpret_cast<void*>(kBase + i * kHugePageSize)); }
struct Unback final : public MemoryModifyFunction {
  bool whole;
  explicit Unback(bool w) : whole(w) {}
  MemoryModifyStatus operator()(Range r) override {
    ++unback_calls;
    uint64_t off = r.p.start_uintptr() - kBase;
    verif_assert(off / kHugePageSize < kHP, "memory outside the filler was returned to the OS");
    int i = off / kHugePageSize, a = (off % kHugePageSize) / kPageSize;
    verif_assert(sh[i].managed && a + r.n.raw_num() <= P, "memory outside the filler was returned to the OS");
    verif_assert(i != collapsing, "memory was returned while its hugepage is being collapsed");
    for (size_t k = 0; k < r.n.raw_num(); ++k) {
      verif_assert(!sh[i].live[a + k], "a live page was returned to the OS");
      if (!whole) verif_assert(!sh[i].released[a + k], "a page already returned to the OS was returned again");
    }
    if (fail_unback) return {false, 12};
    for (size_t k = 0; k < r.n.raw_num(); ++k) sh[i].released[a + k] = true;
    if (!whole && !releasing) pending += r.n;
    return {true, 0};
  }
};
static int hugepage_of(const void* a) {
  uint64_t off = (uint64_t)a - kBase;
  verif_assert(off % kHugePageSize == 0 && off / kHugePageSize < kHP, "a hugepage of the filler is treated");
  int i = off / kHugePageSize;
  verif_assert(sh[i].managed || limbo[i], "a hugepage that was handed back is treated");
  return i;
}
struct Tag final : public MemoryTagFunction {
  void operator()(Range r, std::optional<absl::string_view> n) override {
    hugepage_of(r.start_addr());
    verif_assert(r.n == kPagesPerHugePage, "a name covers a hugepage");
  }
};
struct Collapse final : public MemoryModifyFunction {
  MemoryModifyStatus operator()(Range r) override {
    int i = hugepage_of(r.start_addr());
    verif_assert(r.n == kPagesPerHugePage, "a whole hugepage is collapsed");
    int rel = 0;
    for (int k = 0; k < P; ++k) rel += sh[i].released[k];
    verif_assert(!sh[i].managed || rel == 0, "a hugepage with released pages was collapsed");
    collapsing = i;
    verif_reach("collapse");
    inject(2);
    collapsing = -1;
    return pick0("collapse_fails", 1) ? MemoryModifyStatus{false, 12} : MemoryModifyStatus{true, 0};
  }
};
static int seen_unbacked[kHP];   // pages reported as unbacked by the system
struct Flags final : public PageFlagsBase {
  std::optional<bool> IsHugepageBacked(const void* a) override {
    int i = hugepage_of(a);
    ++treat_calls;
    inject(1);
    seen_unbacked[i] = 0;
    int b = pick0("hugepage", 2);
    if (b == 2) return std::nullopt;
    return b == 1;
  }
  std::optional<PageStats> Get(const void*, size_t) override { return std::nullopt; }
  PageFlagsBitmaps GetSinglePageBitmaps(const void* a) override {
    hugepage_of(a);
    PageFlagsBitmaps r{};
    r.status = absl::StatusCode::kOk;
    if (verif_param(6) & 4 && pick0("stale", 1)) r.stale.SetRange(64, 10);
    return r;
  }
} pflags;
struct Resid final : public Residency {
  std::optional<Info> Get(const void*, size_t) override { return std::nullopt; }
  size_t GetHardwarePagesInHugePage() const override { return 512; }
  SinglePageBitmaps GetUnbackedAndSwappedBitmaps(const void* a) override {
    int i = hugepage_of(a);
    SinglePageBitmaps r{};
    r.status = absl::StatusCode::kOk;
    int m = pick0("unbacked", 3);
    for (int k = 0; k < P; ++k) {
      // what was released and not used since is not there; the rest may or may not be
      bool gone = sh[i].released[k] || (m == 1 && k % 2) || (m == 2 && !sh[i].live[k]) || (m == 3 && sh[i].live[k]);
      if (gone) { seen_unbacked[i] |= 1 << k; r.unbacked.SetRange(k * 64, 64); }
      else if (k == 3) r.unbacked.SetRange(k * 64 + 5, 40);    // in part
    }
    if (pick0("swapped", 1)) r.swapped.SetRange(448, 3);
    return r;
  }
} resid;
static Unback unback(false), unback2(true);
static Collapse collapse;
static Tag tagf;
alignas(64) static char fbuf[sizeof(HugePageFiller<PageTracker>)];
static HugePageFiller<PageTracker>* f;
struct Al { int hp, off, n; bool dense; } live[kHP * P];
static int nlive, nhp;
static int used(int i) { int c = 0; for (int k = 0; k < P; ++k) c += sh[i].live[k]; return c; }
static int rel(int i) { int c = 0; for (int k = 0; k < P; ++k) c += sh[i].released[k]; return c; }
static int longest(int i) { int b = 0, c = 0; for (int k = 0; k < P; ++k) { c = sh[i].live[k] ? 0 : c + 1; if (c > b) b = c; } return b; }
static void check() {
  Length used_pages, unmapped; size_t n = 0;
  Length dense_used, sparse_used;
  for (int i = 0; i < kHP; ++i) {
    if (!sh[i].managed) continue;
    ++n;
    int u = used(i), r = rel(i);
    used_pages += Length(u); unmapped += Length(r);
    (sh[i].dense ? dense_used : sparse_used) += Length(u);
    verif_assert(tr[i]->used_pages() == Length(u), "a hugepage's count of used pages is wrong");
    verif_assert(tr[i]->released_pages() == Length(r), "a hugepage's count of released pages is wrong");
    verif_assert(tr[i]->free_pages() == Length(P - u), "a hugepage's count of free pages is wrong");
    verif_assert(tr[i]->longest_free_range() == Length(longest(i)), "a hugepage's longest free range is wrong");
  }
  verif_assert(f->size() == NHugePages(n), "the number of hugepages is wrong");
  verif_assert(f->used_pages() == used_pages, "the number of used pages is wrong");
  verif_assert(f->pages_allocated(AccessDensityPrediction::kDense) == dense_used && f->pages_allocated(AccessDensityPrediction::kSparse) == sparse_used, "used pages by density are wrong");
  verif_assert(f->unmapped_pages() == unmapped, "the number of unmapped pages is wrong");
  verif_assert(f->free_pages() == Length(n * P) - used_pages - unmapped, "the number of free pages is wrong");
  BackingStats s = f->stats();
  verif_assert(s.system_bytes == n * kHugePageSize && s.free_bytes == f->free_pages().in_bytes() && s.unmapped_bytes == unmapped.in_bytes(), "backing statistics are wrong");
  HugePageFillerStats st = f->GetStats();
  auto all = AccessDensityPrediction::kPredictionCounts;
  verif_assert(st.n_total[all] == NHugePages(n) && st.n_full[all] + st.n_partial[all] + st.n_released[all] == st.n_total[all], "hugepage counts by state do not add up");
  size_t full = 0, anyrel = 0;
  Length in_rel;
  for (int i = 0; i < kHP; ++i) if (sh[i].managed) {
    if (rel(i)) { ++anyrel; in_rel += Length(used(i)); }
    else if (longest(i) == 0) ++full;
  }
  if (verif_param(6) & 2) return;     // hugepages found broken are kept apart
  verif_assert(st.n_full[all] == NHugePages(full), "the count of full hugepages is wrong");
  verif_assert(st.n_released[all] == NHugePages(anyrel), "the count of released hugepages is wrong");
  verif_assert(f->used_pages_in_any_subreleased() == in_rel, "the count of used pages in released hugepages is wrong");
}
static void take(int i, int off, int n, bool dense) {
  verif_assert(i >= 0 && i < kHP && sh[i].managed && off + n <= P, "an allocation lies outside the filler's hugepages");
  for (int k = 0; k < n; ++k) {
    verif_assert(!sh[i].live[off + k], "two live allocations share a page");
    sh[i].live[off + k] = true;
    sh[i].released[off + k] = false;
  }
  live[nlive++] = {i, off, n, dense};
}
static void contribute(int n, bool dense, bool donated) {
  if (nhp == kHP) verif_end_path();
  int i = nhp++;
  tr[i] = new (trbuf[i]) PageTracker(hp(i), donated, t_now);
  sh[i] = Shadow{};
  sh[i].managed = true; sh[i].dense = dense; sh[i].donated = donated;
  SpanAllocInfo info = {1, dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse};
  auto a = tr[i]->Get(Length(n), info);
  verif_assert(a.previously_unbacked == Length(0) && a.page == hp(i).first_page(), "the first allocation of a hugepage is not its start");
  take(i, 0, n, dense);
  f->Contribute(tr[i], donated, info);
}
static void alloc(int n, bool dense) {
  SpanAllocInfo info = {1, dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse};
  bool fits = false;
  for (int i = 0; i < kHP; ++i)
    if (sh[i].managed && sh[i].dense == dense && longest(i) >= n) fits = true;
  auto r = f->TryGet(Length(n), info);
  if (!r.pt) {
    verif_assert(!fits, "a request was refused although a hugepage had room");
    contribute(n, dense, false);
    return;
  }
  uint64_t off = r.page.start_uintptr() - kBase;
  int i = off / kHugePageSize;
  verif_assert(i < kHP && r.pt == tr[i], "the wrong hugepage was reported");
  verif_assert(sh[i].dense == dense, "dense and sparse spans share a hugepage");
  if (!(verif_param(6) & 2)) verif_assert(r.from_released == (rel(i) > 0), "use of a released hugepage is reported wrongly");
  if (sh[i].donated) sh[i].donated = false;
  take(i, (off % kHugePageSize) / kPageSize, n, dense);
}
static void dealloc(int k) {
  Al a = live[k];
  live[k] = live[--nlive];
  for (int j = 0; j < a.n; ++j) sh[a.hp].live[a.off + j] = false;
  SpanAllocInfo info = {1, a.dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse};
  PageTracker* r = f->Put(tr[a.hp], Range(hp(a.hp).first_page() + Length(a.off), Length(a.n)), info);
  bool empty = used(a.hp) == 0;
  if (treating >= 0 && !r && empty) { sh[a.hp].managed = false; limbo[a.hp] = true; verif_reach("emptied while treated"); return; }
  verif_assert((r != nullptr) == empty, "a hugepage is handed back exactly when nothing in it is live");
  if (r) {
    verif_assert(r == tr[a.hp], "the wrong hugepage was handed back");
    sh[a.hp].managed = false;
    memset(trbuf[a.hp], 0xa5, sizeof(PageTracker));      // the tracker is gone
  }
}
static int pick(const char* name, int hi);
static void release(int want, bool limit, bool partial) {
  int before = 0, avail = 0;
  for (int i = 0; i < kHP; ++i) if (sh[i].managed) { before += rel(i); if (i != collapsing) for (int k = 0; k < P; ++k) if (!sh[i].live[k] && !sh[i].released[k]) ++avail; }
  releasing = true;
  Length got = f->ReleasePages(Length(want), SkipSubreleaseIntervals{}, partial, limit);
  releasing = false;
  int after = 0;
  for (int i = 0; i < kHP; ++i) if (sh[i].managed) after += rel(i);
  int reported = (int)got.raw_num() - (after - before);
  verif_assert(reported >= 0 && Length(reported) == pending, "the number of pages reported released differs from what was unmapped");
  pending = Length(0);
  if (!fail_unback) verif_assert((int)got.raw_num() >= (want < avail ? want : avail), "less was released than asked for although more was free");
  if (fail_unback) verif_assert(after == before, "a failed release is counted");
}
// With parameter 5 set, quantities are split into their values right away.
static int pick(const char* name, int hi) { uint64_t v = verif_range(name, 1, hi); return verif_param(5) ? verif_concretize(v) : v; }
static void inject(int where) {
  if (!injections || !verif_choice(2, where == 1 ? "meanwhile" : "meanwhile_collapsing")) return;
  --injections;
  PageHeapSpinLockHolder l;
  switch (verif_choice(3, "what")) {
    case 0: {
      if (!nlive) return;
      int k = verif_choice(nlive, "which");
      int i = live[k].hp, r0 = rel(i);
      bool last = used(i) == live[k].n;
      if (last && r0 > 0) fail_unback = pick0("unback_fails", 1);
      dealloc(k);
      if (last && r0 > 0 && !fail_unback) pending += Length(P - r0);
      fail_unback = false;
      break;
    }
    case 1: alloc(pick("n", P - 1), false); break;
    case 2: release(pick("pages", P + 1), false, false); break;
  }
  check();
}
static void treat() {
  t_now += 400000;      // long enough to look again
  for (int i = 0; i < kHP; ++i) seen_unbacked[i] = 0;
  injections = verif_param(7);
  treating = 0;
  f->TreatHugepageTrackers(verif_choice(2, "collapse") ? EnableCollapse::kEnabled : EnableCollapse::kDisabled, EnableUnfilteredCollapse::kEnabled,
                           (verif_param(6) & 4) ? ReleaseStalePages::kEnabled : ReleaseStalePages::kDisabled, &pflags, &resid);
  treating = -1;
  verif_reach("treated");
  while (PageTracker* t = f->FetchFullyFreedTracker()) {
    int i = -1;
    for (int k = 0; k < kHP; ++k) if (tr[k] == t) i = k;
    verif_assert(i >= 0 && limbo[i], "what was emptied meanwhile is handed back, once");
    limbo[i] = false;
    memset(trbuf[i], 0xa5, sizeof(PageTracker));
    verif_reach("handed back later");
  }
  for (int i = 0; i < kHP; ++i) verif_assert(!limbo[i], "what was emptied meanwhile is handed back");
  for (int i = 0; i < kHP; ++i) if (sh[i].managed) {
    if (verif_param(6) & 2) {      // pages found unbacked count as released
      for (int k = 0; k < P; ++k) {
        bool r = tr[i]->released_by_page().GetBit(k);
        verif_assert(!r || sh[i].released[k] || (!sh[i].live[k] && (seen_unbacked[i] >> k & 1)), "only free pages that the system does not back are taken for released");
        verif_assert(r || !sh[i].released[k], "released pages stay released");
        if (r && !sh[i].released[k]) { sh[i].released[k] = true; pending += Length(1); verif_reach("found unbacked"); }
      }
    }
    verif_assert(!tr[i]->DontFreeTracker() && !tr[i]->BeingCollapsed(), "nothing stays held after the treatment");
  }
}
static void step() {
  if (verif_param(6) && verif_choice(2, "treat")) { treat(); check(); return; }
  switch (verif_choice(verif_param(1) ? 4 : 3, "op")) {
    case 0: {
      if (verif_param(4)) t_now += verif_choice(2, "tick") ? 5000 : 0;
      bool dense = verif_param(1) && verif_choice(2, "dense");   // dense spans are single pages
      alloc(dense ? 1 : pick("n", P - 1), dense);
      break;
    }
    case 1: {
      if (!nlive) verif_end_path();
      int k = verif_choice(nlive, "which");
      int i = live[k].hp, r0 = rel(i);
      bool last = used(i) == live[k].n;
      if (last && r0 > 0) fail_unback = pick0("unback_fails", 1);
      dealloc(k);
      if (last && r0 > 0 && !fail_unback) pending += Length(P - r0);
      fail_unback = false;
      break;
    }
    case 2: {
      fail_unback = verif_choice(2, "unback_fails");
      int m = verif_choice(3, "mode");
      release(pick("pages", P + 1), m == 1, m == 2);
      fail_unback = false;
      break;
    }
    case 3: contribute(pick("n", P - 1), false, true); break;
  }
  check();
}
void harness_main() {
  f = new (fbuf) HugePageFiller<PageTracker>(Clock{now, freq}, MemoryTag::kNormal, unback, unback2, collapse, tagf, verif_param(6) & 2 ? SubreleaseUnbackedMode::kEnabled : SubreleaseUnbackedMode::kDisabled);
  PageHeapSpinLockHolder l;
  if (verif_param(2)) {
    // a hugepage with every page allocated singly, then any subset freed
    contribute(1, false, verif_param(2) == 2);
    for (int k = 1; k < P; ++k) alloc(1, false);
    check();
    uint8_t m = verif_u8("subset");
    for (int k = 0, j = 0; k < P; ++k) {
      if (k + 1 < P ? !((m >> k) & 1) : nlive == 1) { ++j; continue; }
      dealloc(j);
      int w = j;   // keep order: dealloc moved the last one here
      (void)w;
    }
    check();
    if (verif_param(3)) { release(verif_range("pages", 1, P), false, false); check(); }
  }
  if (verif_param(6) & 8) {          // two hugepages to start from
    contribute(3, false, false); alloc(2, false); contribute(5, false, true);
    if (verif_param(6) & 16) { release(2, false, false); }
    if (verif_param(6) & 32) { alloc(3, false); alloc(3, false); }
    check();
  }
  for (int s = 0; s < verif_param(0); ++s) step();
  if (verif_param(6)) {              // nothing is stuck anywhere
    release(1, false, false);
    while (nlive) dealloc(nlive - 1);
    check();
    HugePageFillerStats st = f->GetStats();
    auto all = AccessDensityPrediction::kPredictionCounts;
    verif_assert(f->size() == NHugePages(0) && st.n_total[all] == NHugePages(0) && st.n_full[all] == NHugePages(0) && st.n_partial[all] == NHugePages(0) && st.n_released[all] == NHugePages(0) && f->used_pages_in_any_subreleased() == Length(0), "an empty filler has nothing in any state");
  }
  verif_reach("done");
}
