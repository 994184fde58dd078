// Hooks: every allocation and release is reported to every registered hook
// exactly once, with what was allocated; the list of hooks itself; and the
// hooks below, on pages and central free lists.
#include "os_model.h"
#include "e2e.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/internal/hook_list.h"
#include "tcmalloc/internal/page_allocator_hooks.h"
#include "tcmalloc/internal/central_freelist_hooks.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/page_allocator.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;

struct Ev { int kind; void* p; size_t given, req, real; bool has, mut; };
static Ev ev[64]; static int nev;
static int64_t clock_ns = 1000, native_base;
extern "C" int64_t verif_cycles() {
  // where a guarded allocation lands follows the clock; a replay tries other places
  if (verif_param(7) && verif_native() && !native_base) native_base = __builtin_ia32_rdtsc() % 1000003;
  return clock_ns + native_base + 99991 * verif_param(7);
}
static void note(Ev e) { verif_assert(nev < 64, "far too many reports"); ev[nev++] = e; }
static void on_new(const MallocHook::NewInfo& i) { note({0, i.ptr, 0, i.requested_size, i.allocated_size, false, i.is_mutable == HookMemoryMutable::kMutable}); }
static void on_new2(const MallocHook::NewInfo& i) { note({2, i.ptr, 0, i.requested_size, i.allocated_size, false, i.is_mutable == HookMemoryMutable::kMutable}); }
static void on_delete(const MallocHook::DeleteInfo& i) { note({1, i.ptr, i.deallocated_size.value_or(0), 0, i.allocated_size, i.deallocated_size.has_value(), i.is_mutable == HookMemoryMutable::kMutable}); }
// Reports of sampled allocations.
struct Sam { int64_t handle; size_t req, align, real; bool aligned; double weight; absl::Time when; const void* p; uint8_t hint; bool cold; int depth; bool stack_ok, live; int kind; };
static Sam sam[16]; static int nsam; static int sampled_events;
static bool stack_ok(absl::Span<const void* const> s) { bool ok = true; for (size_t d = 0; d < s.size(); ++d) ok &= s[d] == (void*)(uintptr_t)(0x1000 + 16 * d); return ok; }
static Sam to_sam(const MallocHook::SampledAlloc& s) {
  return {(int64_t)s.handle, s.requested_size, s.requested_alignment ? (size_t)*s.requested_alignment : 0, s.allocated_size, s.requested_alignment.has_value(), s.weight,
          s.allocation_time, s.ptr, s.access_hint, s.access_allocated == MallocHook::Access::Cold, (int)s.stack.size(), stack_ok(s.stack), true, 0};
}
static void on_sampled_new(const MallocHook::SampledAlloc& s) {
  ++sampled_events;
  Sam x = to_sam(s);
  for (int i = 0; i < nsam; ++i) verif_assert(sam[i].handle != x.handle, "two sampled allocations were reported with one handle");
  verif_assert(x.handle != 0 && x.stack_ok && x.depth == os.stack_depth, "a sampled allocation is reported without its call stack");
  sam[nsam++] = x;
}
static void on_sampled_delete(const MallocHook::SampledAlloc& s) {
  ++sampled_events;
  Sam x = to_sam(s);
  int i = 0;
  while (i < nsam && sam[i].handle != x.handle) ++i;
  verif_assert(i < nsam && sam[i].live, "the release of a sampled allocation was reported that was not made or is gone");
  const Sam& y = sam[i];
  verif_assert(x.req == y.req && x.align == y.align && x.real == y.real && x.aligned == y.aligned && x.weight == y.weight && x.when == y.when && x.p == y.p && x.hint == y.hint && x.cold == y.cold && x.depth == y.depth && x.stack_ok,
               "the release of a sampled allocation is reported differently from the allocation");
  sam[i].live = false;
}
static const int kE[] = {E_MALLOC, E_NEW, E_CALLOC, E_NEW_ALIGNED, E_SIZE_RETURNING, E_NEW_COLD, E_ALIGNED_ALLOC, E_REALLOC_NULL, E_POSIX_MEMALIGN, E_NEW_NOTHROW, E_ALLOC_AT_LEAST, E_SIZE_RETURNING_ALIGNED, E_NEW_ALIGNED_COLD, E_MEMALIGN};
static void expect(int i, int kind, void* p, size_t req, size_t real, bool mut) {
  verif_assert(i < nev, kind == 1 ? "a release was not reported" : "an allocation was not reported");
  const Ev& e = ev[i];
  verif_assert(e.kind == kind && e.p == p && e.real == real && e.mut == mut && (kind == 1 || e.req == req), kind == 1 ? "a release is reported wrongly" : "an allocation is reported wrongly");
}
static bool capacity_returning(int e) { return e == E_SIZE_RETURNING || e == E_SIZE_RETURNING_ALIGNED || e == E_ALLOC_AT_LEAST || e == E_ALIGNED_ALLOC_AT_LEAST; }
// Allocation and release through every function.
static void mode_calls() {
  // params: sizes lo..hi, sampled, (4 is e2e's), first entry, entries, ops
  if (verif_param(3)) sample_everything();
  TCMalloc_Internal_SetGuardedSamplingInterval(verif_param(3) == 2 ? 1 : -1);
  if (verif_param(3) == 2) activate_guarded();
  os.stack_depth = 3;
  if (verif_param(8)) { TCMallocInternalFree(TCMallocInternalMalloc(verif_param(1))); TCMallocInternalDelete(TCMallocInternalNew(verif_param(2))); }   // caches in use before
  if (verif_param(8)) {
    // a single delete hook is heard from the first release after it was added
    void *p0 = TCMallocInternalMalloc(verif_param(1)), *p1 = TCMallocInternalMalloc(verif_param(1)), *p2 = TCMallocInternalMalloc(verif_param(1));
    TCMallocInternalFree(p2);
    verif_assert(MallocHook::AddDeleteHook(on_delete), "a hook was refused");
    TCMallocInternalFree(p0);
    verif_assert(nev == 1 && ev[0].kind == 1 && ev[0].p == p0, "a release was not reported");
    verif_assert(MallocHook::RemoveDeleteHook(on_delete), "removing a hook");
    TCMallocInternalFree(p1);
    verif_assert(nev == 1, "a hook was called after its removal");
    verif_assert(MallocHook::AddNewHook(on_new), "a hook was refused");
    p0 = TCMallocInternalMalloc(verif_param(1));
    verif_assert(nev == 2 && ev[1].kind == 0 && ev[1].p == p0, "an allocation was not reported");
    verif_assert(MallocHook::RemoveNewHook(on_new), "removing a hook");
    TCMallocInternalFree(p0);
    verif_assert(nev == 2, "a hook was called after its removal");
    nev = 0;
  }
  const int fe = verif_param(5), ne = verif_param(6);
  int e = kE[fe + verif_choice(ne, "entry")];
  size_t n = verif_concretize(verif_range("n", verif_param(1), verif_param(2)));
  size_t a = takes_align(e) ? verif_choice(2, "align") ? 4096 : 16 : 0;
  if (e == E_ALIGNED_ALLOC) n = n / 16 * 16;
  const bool with_sampled = verif_param(3) != 0;
  verif_assert(MallocHook::AddNewHook(on_new) & MallocHook::AddDeleteHook(on_delete), "a hook was refused");
  if (with_sampled) verif_assert(MallocHook::AddSampledNewHook(on_sampled_new) & MallocHook::AddSampledDeleteHook(on_sampled_delete), "a hook was refused");
  const int two = verif_choice(2, "two");
  if (two) verif_assert(MallocHook::AddNewHook(on_new2), "a second hook was refused");
  size_t cap = 0;
  clock_ns += 777;
  char* p = (char*)allocate(e, n, a, &cap);
  verif_assert(p != nullptr, "an allocation failed");
  const size_t real = TCMallocInternalMallocSize(p);
  const size_t req = capacity_returning(e) ? cap : n;
  verif_assert(nev == 1 + two, "an allocation was not reported to every hook once");
  expect(0, 0, p, req, real, true);
  if (two) expect(1, 2, p, req, real, true);
  if (with_sampled) {
    verif_assert(sampled_events == 1 && nsam == 1, "a sampled allocation was not reported once");
    const Sam& s = sam[0];
    verif_assert(s.p == p && s.req == n && (is_guarded(p) || s.real == real) && s.when == absl::FromUnixNanos(verif_cycles()) && s.hint == (e == E_NEW_COLD || e == E_NEW_ALIGNED_COLD ? 0 : 255) && s.cold == (e == E_NEW_COLD || e == E_NEW_ALIGNED_COLD),
                 "a sampled allocation is reported wrongly");
    if (takes_align(e)) verif_assert(s.aligned && s.align == a, "a sampled allocation is reported with another alignment");
    verif_reach("sampled");
    if (is_guarded(p)) verif_reach("guarded");
  } else verif_assert(sampled_events == 0, "an allocation that was not sampled is reported as such");
  nev = 0;
  // a reallocation: in place it is reported as a release and an allocation
  if (is_malloc_like(e) && e != E_ALLOC_AT_LEAST && verif_choice(2, "realloc")) {
    size_t m = verif_concretize(verif_range("m", n > 8 ? n - 3 : 1, n + 3));
    int before = sampled_events;
    char* q = (char*)TCMallocInternalRealloc(p, m);
    verif_assert(q != nullptr, "realloc failed");
    const size_t real2 = TCMallocInternalMallocSize(q);
    if (q == p && !with_sampled) {
      verif_assert(nev == 2 + two, "a reallocation in place is not reported as a release and an allocation");
      expect(0, 1, p, 0, real, false);
      expect(1, 0, p, m, real, false);
      verif_assert(!ev[0].has, "a release without a size is reported with one");
      verif_reach("in place");
    } else {
      verif_assert(nev == 2 + two, "a reallocation is not reported as an allocation and a release");
      expect(0, 0, q, m, real2, true);
      expect(1 + two, 1, p, 0, real, true);
      if (with_sampled) verif_assert(sampled_events == before + 2 && nsam == 2 && !sam[0].live && sam[1].live && sam[1].p == q && sam[1].req == m, "a reallocation of a sampled allocation is reported wrongly");
      verif_reach("moved");
    }
    p = q; n = m; nev = 0;
  }
  // taken away, hooks hear nothing more
  const int gone = verif_choice(3, "removed");
  if (gone == 1) verif_assert(MallocHook::RemoveDeleteHook(on_delete) & !MallocHook::RemoveDeleteHook(on_delete), "removing a hook");
  if (gone == 2) verif_assert(MallocHook::RemoveNewHook(on_new) & !MallocHook::RemoveNewHook(on_new), "removing a hook");
  const size_t last = TCMallocInternalMallocSize(p);
  const int before = sampled_events;
  int sized = takes_align(e) || e == E_NEW_COLD ? 0 : verif_choice(2, "sized");
  if (!sized) release_plain(e, p, a);
  else if (is_malloc_like(e)) TCMallocInternalFreeSized(p, n);
  else TCMallocInternalDeleteSized(p, cap ? cap : n);
  if (gone == 1) verif_assert(nev == 0, "a hook was called after its removal");
  else {
    verif_assert(nev == 1, "a release was not reported once");
    expect(0, 1, p, 0, last, true);
    verif_assert(!ev[0].has || (sized && ev[0].given == (cap && !is_malloc_like(e) ? cap : n)), "a release is reported with another size");
    verif_assert(ev[0].has == (sized != 0), "a release is reported with a size exactly when the caller gave one");
  }
  if (with_sampled) { verif_assert(sampled_events == before + 1, "the release of a sampled allocation was not reported once"); for (int i = 0; i < nsam; ++i) verif_assert(!sam[i].live, "a sampled allocation is never reported released"); }
  nev = 0;
  if (gone == 2) {
    void* q = TCMallocInternalMalloc(n);
    verif_assert(nev == two && (!two || ev[0].kind == 2), "a hook was called after its removal, or another one was not");
    nev = 0;
    if (!two) verif_reach("none left");
    TCMallocInternalFree(q);
    nev = 0;
  }
  // a failed allocation is not reported as one
  if (gone != 2) {
    void* f = TCMallocInternalMalloc(~size_t{0} >> 1);
    verif_assert(f == nullptr, "an absurd allocation succeeded");
    for (int i = 0; i < nev; ++i) verif_assert(ev[i].p == nullptr, "a failed allocation is reported as one");
  }
  verif_reach("done");
}
// The list itself, against a plain array.
static void mode_list() {
  static HookList<intptr_t> list;
  static intptr_t ref[8]; int n = 0;           // slots; first free slot is used
  const int ops = verif_param(1), fill = verif_param(2);
  const uint64_t hi = verif_param(3);
  for (int i = 0; i < fill; ++i) { intptr_t v = verif_range("fill", 1, hi); verif_assert(list.Add(v), "a value was refused although there is room"); ref[n++] = v; }
  for (int i = 0; i < ops; ++i) {
    intptr_t v = verif_range("value", 0, hi);
    if (verif_choice(2, "op") == 0) {
      bool ok = list.Add(v);
      verif_assert(ok == ((v != 0) & (n < kHookListMaxValues)), "adding to the list of hooks");
      if (ok) ref[n++] = v; else if (v) verif_reach("full");
    } else {
      bool ok = list.Remove(v);
      int j = 0;
      while (j < n && ref[j] != v) ++j;
      verif_assert(ok == (v != 0 && j < n), "removing from the list of hooks");
      if (ok) { for (; j + 1 < n; ++j) ref[j] = ref[j + 1]; --n; verif_reach("removed"); }
    }
    intptr_t out[kHookListMaxValues + 1];
    int lim = i == ops - 1 ? (int)verif_choice(kHookListMaxValues + 1, "limit") : kHookListMaxValues;
    out[lim] = -77;
    int got = list.Traverse(out, lim);
    bool ok = (got == (n < lim ? n : lim)) & (out[lim] == -77) & (list.empty() == (n == 0)) & (list.size() >= n);
    // the same values the same number of times, when all are asked for
    if (lim == kHookListMaxValues) for (int k = 0; k < n; ++k) { int c1 = 0, c2 = 0; for (int j = 0; j < n; ++j) { c1 += ref[j] == ref[k]; c2 += out[j] == ref[k]; } ok &= c1 == c2; }
    else for (int j = 0; j < got; ++j) { bool in = false; for (int k = 0; k < n; ++k) in |= out[j] == ref[k]; ok &= in; }
    verif_assert(ok, "the list of hooks is not what was added and not removed");
  }
  verif_reach("done");
}
// Changes from two threads and a reader.
static HookList<intptr_t> shared_list;
static intptr_t tv[2]; static int tops[2]; static bool tok[2][2];
static void list_thread(void* arg) {
  int t = (int)(intptr_t)arg;
  tok[t][0] = shared_list.Add(tv[t]);
  if (tops[t]) tok[t][1] = shared_list.Remove(tops[t] == 1 ? tv[t] : 9);
}
static void mode_list_threads() {
  const int fill = verif_param(1);
  for (int i = 0; i < fill; ++i) verif_assert(shared_list.Add(9), "a value was refused although there is room");
  tv[0] = verif_range("a", 1, 8); tv[1] = verif_range("b", 1, 8);
  tops[0] = verif_choice(3, "op"); tops[1] = verif_choice(3, "op");
  verif_thread(list_thread, (void*)0);
  verif_thread(list_thread, (void*)1);
  intptr_t out[kHookListMaxValues];
  int got = shared_list.Traverse(out, kHookListMaxValues);
  bool ok = true;
  int nines = 0;
  for (int i = 0; i < got; ++i) { nines += out[i] == 9; ok &= (out[i] == 9) | (out[i] == tv[0]) | (out[i] == tv[1]); }
  int maybe = (tops[0] == 2) + (tops[1] == 2);
  verif_assert(ok & (nines <= fill) & (nines + maybe >= fill), "a reader of the list of hooks sees what was never there, or misses what stayed");
  verif_join_all();
  int expect_n = fill;
  for (int t = 0; t < 2; ++t) { expect_n += tok[t][0]; if (tops[t] == 1) { verif_assert(tok[t][1] == tok[t][0] || tv[0] == tv[1], "a hook that was added could not be removed"); expect_n -= tok[t][1]; } else if (tops[t] == 2) { verif_assert(tok[t][1] || fill < 2, "a hook that is in the list could not be removed"); expect_n -= tok[t][1]; } }
  if (fill + 2 <= kHookListMaxValues) verif_assert(tok[0][0] & tok[1][0], "a value was refused although there is room");
  got = shared_list.Traverse(out, kHookListMaxValues);
  ok = got == expect_n;
  for (int i = 0; i < got; ++i) ok &= (out[i] == 9) | (out[i] == tv[0]) | (out[i] == tv[1]);
  verif_assert(ok, "the list of hooks is not what was added and not removed");
  verif_reach("done");
}
// Pages: each span obtained or given back is reported with its range.
struct Pg { int kind; size_t start, n, align, objects; int density; MemoryTag tag; };
static Pg pg[256]; static int npg; static size_t rel_asked, rel_done; static int nrel; static PageReleaseReason rel_why;
static void on_page_new(size_t s, size_t n, size_t al, size_t ob, uint8_t d, MemoryTag t) { verif_assert(npg < 256, "far too many reports"); pg[npg++] = {0, s, n, al, ob, d, t}; }
static void on_page_delete(size_t s, size_t n, size_t ob, uint8_t d, MemoryTag t) { verif_assert(npg < 256, "far too many reports"); pg[npg++] = {1, s, n, 0, ob, d, t}; }
static void on_page_release(size_t n, size_t r, PageReleaseReason why) { ++nrel; rel_asked = n; rel_done = r; rel_why = why; }
static void mode_pages() {
  TCMalloc_Internal_SetProfileSamplingInterval(0);
  TCMallocInternalFree(TCMallocInternalMalloc(1));
  bool ok = page_allocator_new_hooks.Add(on_page_new) & page_allocator_delete_hooks.Add(on_page_delete) & page_allocator_release_hooks.Add(on_page_release);
  verif_assert(ok, "a hook was refused");
  const int ops = verif_param(3);
  bool first_release = true;
  void* held[8]; size_t hp[8]; int nh = 0; bool hcold[8]; size_t hal[8];
  for (int i = 0; i < ops; ++i) {
    npg = nrel = 0;
    int what = verif_choice(nh ? 4 : 3, "op");
    if (what < 2) {
      size_t n = verif_concretize(verif_range("n", verif_param(1), verif_param(2)));
      bool cold = what == 0 && verif_choice(2, "cold");
      size_t a = what ? verif_choice(2, "align") ? 65536 : 16384 : 0;
      void* p = what ? TCMallocInternalAlignedAlloc(a, n) : allocate(cold ? E_NEW_COLD : E_NEW, n, 0, nullptr);
      verif_assert(p != nullptr, "an allocation failed");
      size_t pages = (n + 8191) / 8192;
      const Pg* x = nullptr; int c = 0;
      for (int j = 0; j < npg; ++j) if (pg[j].kind == 0 && pg[j].start == (uintptr_t)p / 8192) x = &pg[j], ++c;
      verif_assert(c == 1 && npg == 1, "pages obtained are not reported once");
      verif_assert(x->n == pages && x->align == (a ? a / 8192 : 1) && x->objects == 1 && x->tag == (cold ? MemoryTag::kCold : MemoryTag::kNormalP0), "pages obtained are reported wrongly");
      held[nh] = p; hp[nh] = pages; hal[nh] = a; hcold[nh++] = cold;
    } else if (what == 2) {
      size_t ask = verif_range("release", 0, 300 * 8192);
      size_t before = 0, after = 0;
      { PageHeapSpinLockHolder l; before = tc_globals.page_allocator().stats().unmapped_bytes; }
      MallocExtension_Internal_ReleaseMemoryToSystem(ask);
      { PageHeapSpinLockHolder l; after = tc_globals.page_allocator().stats().unmapped_bytes; }
      verif_assert(nrel >= 1 && (first_release ? rel_done * 8192 == after - before : rel_done * 8192 + before >= after) && rel_why == PageReleaseReason::kReleaseMemoryToSystem, "giving back memory is reported wrongly");
if (first_release) verif_assert(rel_asked * 8192 >= ask && rel_asked * 8192 < ask + 2 * 8192, "giving back memory is reported with another amount");
      first_release = rel_done == 0 && first_release;
      if (rel_done) verif_reach("given back");
    } else {
      int j = verif_choice(nh, "which");
      if (hal[j]) TCMallocInternalFree(held[j]); else TCMallocInternalDelete(held[j]);
      verif_assert(npg == 1 && pg[0].kind == 1 && pg[0].start == (uintptr_t)held[j] / 8192 && pg[0].n == hp[j] && pg[0].objects == 1 && pg[0].tag == (hcold[j] ? MemoryTag::kCold : MemoryTag::kNormalP0), "pages given back are reported wrongly");
      --nh; held[j] = held[nh]; hp[j] = hp[nh]; hal[j] = hal[nh]; hcold[j] = hcold[nh];
    }
  }
  verif_reach("done");
}
// Central free lists: every batch that leaves or enters one is reported.
static void* out_[512]; static int nout; static size_t ccl; static bool in_hook_ok = true;
static void on_insert(size_t cl, absl::Span<void*> b) {
  if (cl != ccl) return;
  for (void* p : b) { int i = 0; while (i < nout && out_[i] != p) ++i; verif_assert(i < nout, "an object is reported entering a central list that never left one"); out_[i] = out_[--nout]; }
}
static void on_remove(size_t cl, absl::Span<void*> b) {
  if (cl != ccl) return;
  verif_assert(b.size() > 0, "an empty batch is reported");
  for (void* p : b) { for (int i = 0; i < nout; ++i) verif_assert(out_[i] != p, "an object is reported leaving a central list twice"); verif_assert(nout < 512, "too many objects"); out_[nout++] = p; }
}
static void mode_central() {
  TCMalloc_Internal_SetProfileSamplingInterval(0);
  TCMallocInternalFree(TCMallocInternalMalloc(1));
  ccl = verif_param(1);
  const size_t size = tc_globals.sizemap().class_to_size(ccl);
  verif_assert(central_freelist_insert_range_hooks.Add(on_insert) & central_freelist_remove_range_hooks.Add(on_remove), "a hook was refused");
  void* held[256]; int nh = 0;
  auto& fl = tc_globals.transfer_cache().central_freelist(ccl);
  const size_t len0 = fl.length();
  (void)len0;
  const int ops = verif_param(2);
  for (int i = 0; i < ops; ++i) {
    size_t n = verif_concretize(verif_range("count", 1, verif_param(3)));
    if (!nh || verif_choice(2, "op") == 0) {
      for (size_t k = 0; k < n; ++k) {
        void* p = TCMallocInternalMalloc(size);
        int j = 0; while (j < nout && out_[j] != p) ++j;
        verif_assert(p && j < nout, "an object is handed out whose leaving the central list was not reported");
        held[nh++] = p;
      }
    } else {
      for (size_t k = 0; k < n && nh; ++k) TCMallocInternalFree(held[--nh]);
      if (verif_choice(2, "flush")) { MallocExtension_Internal_MarkThreadIdle(); tc_globals.transfer_cache().TryPlunder(); tc_globals.transfer_cache().TryPlunder(); tc_globals.transfer_cache().TryPlunder(); verif_reach("flushed"); }
    }
    SpanStats s = fl.GetSpanStats();
    verif_assert(s.obj_capacity == fl.length() + nout, "what is reported to have left the central list is not what is missing from it");
  }
  while (nh) TCMallocInternalFree(held[--nh]);
  verif_reach("done");
}
void harness_main() {
  switch (verif_param(0)) { case 0: return mode_calls(); case 1: return mode_list(); case 2: return mode_list_threads(); case 3: return mode_pages(); case 4: return mode_central(); }
}
