// The page allocator over the real hugepage layers and the modelled kernel:
// histories of span allocation, release and return to the system.
#include "tcmalloc/internal/system_allocator.h"
#include "tcmalloc/page_allocator.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/parameters.h"
#include "os_model.h"
#include "e2e.h"
using namespace tcmalloc::tcmalloc_internal;
struct Live { PageId p; Length n; MemoryTag tag; SpanAllocInfo info; Span* s; };
static const int kMax = 96;
static Live live[kMax]; static int nlive;
static size_t released_now, base_used, credit; static int madvise_calls; static uint64_t fail_mask;
static bool releasing;
static Length total_live() { Length t; for (int i = 0; i < nlive; ++i) t += live[i].n; return t; }
// What the system holds no memory for: per hugepage, page by page.
static bool shadow_on, allocating;
struct HpShadow { uintptr_t hp; uint8_t released; bool whole; };
static HpShadow shadow[900]; static int nshadow;
static HpShadow& hp_shadow(uintptr_t hp) {
  for (int i = 0; i < nshadow; ++i) if (shadow[i].hp == hp) return shadow[i];
  verif_assert(nshadow < 900, "too many hugepages for the shadow");
  shadow[nshadow] = {hp, 0, false};
  return shadow[nshadow++];
}
static void shadow_release(uintptr_t s, uintptr_t e) {
  if (!shadow_on) return;
  for (; s < e; s += kPageSize) {
    HpShadow& h = hp_shadow(s / kHugePageSize);
    int b = s % kHugePageSize / kPageSize;
    if (b == 0 && e - s >= kHugePageSize) { h.released = 255; h.whole = true; s += kHugePageSize - kPageSize; continue; }
    // enforcing a limit from within an allocation: the hugepage the new span is on is already back in use as a whole
    if (allocating && h.whole) { h.whole = false; h.released = 0; }
    verif_assert(!(h.released >> b & 1), "pages already returned to the system were returned again");
    h.released |= 1 << b;
  }
}
static void shadow_use(uintptr_t s, uintptr_t e) {
  if (!shadow_on) return;
  for (; s < e; s += kPageSize) {
    HpShadow& h = hp_shadow(s / kHugePageSize);
    if (h.whole) { h.whole = false; h.released = 0; }   // back in use as a whole
    h.released &= ~(1 << (s % kHugePageSize / kPageSize));
  }
}
static int on_madvise(void* a, size_t len, int advice) {
  if (advice == 9) return 22;               // MADV_REMOVE: private memory
  if (advice != 4 && advice != 8) return 0;   // not DONTNEED or FREE
  uintptr_t s = (uintptr_t)a, e = s + len;
  verif_assert(s % kPageSize == 0 && len % kPageSize == 0, "memory returned to the system in pieces of pages");
  for (int i = 0; i < nlive; ++i) {
    uintptr_t x = live[i].p.start_uintptr();
    verif_assert(e <= x || x + live[i].n.in_bytes() <= s, "memory of a live span was returned to the system");
  }
  int k = madvise_calls++;
  if (fail_mask >> k & 1) return 12;
  released_now += len;
  shadow_release(s, e);
  if (!releasing) credit += len;
  return 0;
}
static BackingStats stats() { PageHeapSpinLockHolder l; return tc_globals.page_allocator().stats(); }
static void check() {
  BackingStats st = stats();
  verif_assert(st.system_bytes >= st.free_bytes + st.unmapped_bytes, "free and unmapped memory exceed what came from the system");
  verif_assert(st.system_bytes - st.free_bytes - st.unmapped_bytes == base_used + total_live().in_bytes(), "the bytes in use do not equal the live spans");
  if (shadow_on) {
    size_t b = 0;
    for (int i = 0; i < nshadow; ++i) b += 8 - __builtin_popcount(shadow[i].released);
    verif_assert(st.system_bytes - st.unmapped_bytes == b * kPageSize, "the memory counted as backed is not what the system backs");
  }
  for (int i = 0; i < nlive; ++i) {
    verif_assert(tc_globals.pagemap().GetDescriptor(live[i].p) == live[i].s, "the page map lost a live span");
    verif_assert(live[i].s->first_page() == live[i].p && live[i].s->num_pages() == live[i].n, "a live span changed its place or length");
  }
}
static void check_lists() {
  SmallSpanStats sm; LargeSpanStats lg; BackingStats st;
  { PageHeapSpinLockHolder l; tc_globals.page_allocator().GetSmallSpanStats(&sm); tc_globals.page_allocator().GetLargeSpanStats(&lg); st = tc_globals.page_allocator().stats(); }
  Length normal = lg.normal_pages, ret = lg.returned_pages;
  for (size_t i = 0; i < kMaxPages.raw_num(); ++i) { normal += Length(i * sm.normal_length[i]); ret += Length(i * sm.returned_length[i]); }
  verif_assert(normal.in_bytes() == st.free_bytes && ret.in_bytes() == st.unmapped_bytes, "the free span tables do not add up to the free and unmapped totals");
}
static void adopt(Span* s, Length n, Length align, MemoryTag tag, SpanAllocInfo info) {
  verif_assert(s != nullptr, "a span was refused although the system has memory");
  verif_assert(s->num_pages() == n, "a span has another length than requested");
  PageId p = s->first_page();
  verif_assert(align.raw_num() == 0 || p.index() % align.raw_num() == 0, "a span is not aligned as requested");
  verif_assert(GetMemoryTag(s->start_address()) == tag, "a span lies in memory of another kind");
  verif_assert(GetMemoryTag((char*)s->start_address() + n.in_bytes() - 1) == tag, "a span ends in memory of another kind");
  for (int i = 0; i < nlive; ++i)
    verif_assert(p + n <= live[i].p || live[i].p + live[i].n <= p, "a span overlaps a live one");
  verif_assert(verif_is_mapped(s->start_address(), n.in_bytes()), "a span lies outside mapped memory");
  verif_assert(tc_globals.pagemap().GetDescriptor(p) == s, "a new span is not in the page map");
  verif_assert(s->Allocated() == 0 && !s->sampled(), "a new span is not fresh");
  shadow_use(p.start_uintptr(), (p + n).start_uintptr());
  live[nlive++] = {p, n, tag, info, s};
}
static void get(Length n, Length align, MemoryTag tag, bool dense) {
  if (nlive == kMax) verif_end_path();
  SpanAllocInfo info{dense ? size_t{64} : size_t{1}, dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse};
  allocating = true;
  Span* s = align == Length(0) ? tc_globals.page_allocator().New(n, info, tag) : tc_globals.page_allocator().NewAligned(n, align, info, tag);
  allocating = false;
  adopt(s, n, align, tag, info);
}
static void put(int i) {
  Live l = live[i];
  PageAllocatorInterface::AllocationState a{Range(l.p, l.n), l.s->donated()};
  live[i] = live[--nlive];
#ifdef TCMALLOC_INTERNAL_LEGACY_LOCKING
  PageHeapSpinLockHolder h; tc_globals.page_allocator().Delete(l.s, l.tag, l.info);
#else
  Span::Delete(l.s);
  PageHeapSpinLockHolder h;
  tc_globals.page_allocator().Delete(a, l.tag, l.info);
#endif
}
static Length give_back(Length want) {
  BackingStats b = stats();
  released_now = 0; madvise_calls = 0;
  Length got;
  releasing = true;
  { PageHeapSpinLockHolder h; got = tc_globals.page_allocator().ReleaseAtLeastNPages(want, PageReleaseReason::kReleaseMemoryToSystem); }
  releasing = false;
  BackingStats a = stats();
  // hugepages already partly released are given back whole when they become
  // empty, and credited to the next release
  verif_assert(got.in_bytes() >= released_now && got.in_bytes() <= released_now + credit, "the pages reported as released are not those returned to the system");
  credit -= got.in_bytes() - released_now;
  verif_assert(a.unmapped_bytes - b.unmapped_bytes == released_now && b.free_bytes - a.free_bytes == released_now, "the totals do not reflect what was returned to the system");
  verif_assert(a.system_bytes == b.system_bytes, "returning memory changed the system total");
  return got;
}
static size_t backed() { BackingStats s = stats(); return s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes(); }
static const MemoryTag kTags[] = {MemoryTag::kNormalP0, MemoryTag::kSampled, MemoryTag::kCold};
void harness_main() {
  const int mode = verif_param(0), ops = verif_param(1);
  const uint64_t lo = verif_param(2), hi = verif_param(3);
  const int flags = verif_param(4), prefix = verif_param(5);
  { void* p = TCMallocInternalMalloc(1); shadow[nshadow++] = {(uintptr_t)p / kHugePageSize, 0, false}; TCMallocInternalFree(p); }
  { BackingStats s = stats(); base_used = s.system_bytes - s.free_bytes - s.unmapped_bytes; }
  os.on_madvise = on_madvise;
  if (!(flags & 256)) {      // parts of hugepages may be released, whatever the recent demand
    Parameters::set_hpaa_subrelease(true);
    if (!(flags & 512)) { Parameters::set_filler_skip_subrelease_short_interval(absl::ZeroDuration()); Parameters::set_filler_skip_subrelease_long_interval(absl::ZeroDuration()); }
  }
  if (flags & 1024) Parameters::set_hpaa_subrelease(false);
  shadow_on = (flags & 32) && kPagesPerHugePage.raw_num() == 8;
  MemoryTag tag = kTags[flags & 3];
  auto len = [&](const char* n) { uint64_t v = verif_range(n, lo, hi); return Length(flags & 32 ? verif_concretize(v) : v); };
  // spans just over a whole number of hugepages leave slack behind
  for (int i = 0; i < prefix; ++i) get(kPagesPerHugePage + Length(1), Length(0), tag, false);
  if (prefix && (flags & 4)) for (int i = prefix; i-- > 0;) if (i & 1) put(i);
  check();
  if (mode == 0) {
    const int first = prefix && !(flags & 64) ? nlive : 0;
    for (int k = 0; k < ops; ++k) {
      int op = verif_choice(flags & 8 ? 3 : 2, "op");
      if (op == 0) {
        bool aligned = flags & 16 ? verif_choice(2, "aligned") : false;
        bool dense = !aligned && verif_choice(2, "dense");   // dense spans are single pages
        get(dense ? Length(1) : len("n"), aligned ? Length(size_t{1} << verif_choice(flags & 32 ? 4 : 2, "align")) * (flags & 32 ? 1 : kPagesPerHugePage.raw_num() / 2) : Length(0), tag, dense);
      } else if (op == 1) {
        if (nlive == first) verif_end_path();
        put(first + verif_choice(nlive - first, "which"));
      } else {
        fail_mask = flags & 128 ? verif_range("fail", 0, 7) : 0;
        give_back(Length(verif_range("want", 1, 3 * hi)));
        fail_mask = 0;
      }
      check();
    }
    check_lists();
    while (nlive) put(nlive - 1);
    check();
    give_back(Length(1 << 20));
    check(); check_lists();
    // everything that is left is one hugepage-sized piece after another
    BackingStats s = stats();
    verif_observe(s.free_bytes);
    verif_reach("done");
  } else if (mode == 2) {
    // rounds: spans, some freed, a release, some more freed, a release, new
    // spans in the holes
    for (int k = 0; k < ops; ++k) get(len("n"), Length(0), tag, false);
    check();
    for (int r = 0; r < 2; ++r) {
      uint64_t drop = verif_choice(size_t{1} << nlive, "drop");
      for (int i = nlive; i-- > 0;) if (drop >> i & 1) { Live l = live[nlive - 1], x = live[i]; live[nlive - 1] = x; live[i] = l; put(nlive - 1); }
      check();
      fail_mask = flags & 128 ? verif_range("fail", 0, 3) : 0;
      give_back(Length(verif_range("want", 1, verif_param(6))));
      fail_mask = 0;
      check();
    }
    if (flags & 64) { get(len("m"), Length(0), tag, false); check(); get(Length(1), Length(0), tag, verif_choice(2, "dense")); check(); }
    check_lists();
    while (nlive) put(nlive - 1);
    check();
    give_back(Length(1 << 20));
    check(); check_lists();
    verif_reach("done");
  } else if (mode == 1) {
    // limits: held whenever there is free memory left to give back
    const bool hard = flags & 64;
    for (int k = 0; k < ops; ++k) { bool dense = verif_choice(2, "dense"); get(dense ? Length(1) : len("n"), Length(0), tag, dense); }
    if (verif_choice(2, "put")) put(0);
    size_t b = backed();
    uint64_t limit = verif_range("limit", 0, 40 * kHugePageSize);
    verif_assume(limit + verif_param(6) * kHugePageSize > b && limit < b + verif_param(6) * kHugePageSize);
    auto& pa = tc_globals.page_allocator();
    const int64_t hits0 = pa.limit_hits(PageAllocator::kSoft), hhits0 = pa.limit_hits(PageAllocator::kHard);
    size_t meta = tc_globals.metadata_bytes();
    auto held = [&]() {
      BackingStats s = stats();
      // the allocator's own metadata may grow by what this one operation needs
      size_t now = backed() - (tc_globals.metadata_bytes() - meta);
      if (now > limit) verif_assert(!hard && s.free_bytes == 0, hard ? "the hard limit is exceeded and the process lives" : "the soft limit is exceeded although free memory is left");
    };
    if (hard) verif_expect_crash(1);
    pa.set_limit(limit, hard ? PageAllocator::kHard : PageAllocator::kSoft);
    verif_assert((uint64_t)pa.limit(PageAllocator::kSoft) == limit && (!hard || (uint64_t)pa.limit(PageAllocator::kHard) == limit), "a limit does not read back");
    verif_assert(pa.limit_hits(PageAllocator::kSoft) == hits0 + (b > limit) && pa.limit_hits(PageAllocator::kHard) == hhits0 + (hard && b > limit), "limit hits are miscounted");
    held();
    check();
    meta = tc_globals.metadata_bytes();
    get(len("m"), Length(0), tag, false);
    held();
    check(); check_lists();
    verif_reach("done");
  }
}
