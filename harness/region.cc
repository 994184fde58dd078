// Regions shared by large allocations: histories against a page-by-page
// shadow of the unused end of each region.
//  P0 operations, P1 regions, P2 hugepages left in each region, P3/P4 smallest
//  and largest allocation in pages, P5 keep empty hugepages (1), P6 operations allowed:
//  1 release, 2 failing system calls, 4 only release at the end
#include "tcmalloc/huge_page_aware_allocator.h"
#include "tcmalloc/huge_region.h"
#include "verif.h"
using namespace tcmalloc::tcmalloc_internal;
constexpr int P = kPagesPerHugePage.raw_num();
constexpr int kHP = 10, kR = 2;
constexpr int kRegionPages = HugeRegion::size().raw_num() * P;
static const uintptr_t kBase = 0x100000000000;
static bool used[kR][kHP * P], backed[kR][kHP];
static int regions, left, fill;               // left: hugepages not filled at the start
static bool may_fail, releasing; static int unbacked_now, failures; static bool only_whole[kR][kHP];
static HugePage hp(int r, int i) { return HugePageContaining(reinterpret_cast<void*>(kBase + ((uint64_t)r << 30) + (uint64_t)i * kHugePageSize)); }
static bool empty_hp(int r, int h) { bool e = true; for (int k = 0; k < P; ++k) e &= !used[r][h * P + k]; return e; }
struct Unback final : public MemoryModifyFunction {
  MemoryModifyStatus operator()(Range x) override {
    uint64_t off = x.p.start_uintptr() - kBase;
    int r = off >> 30, h = (int)((off & ((1ull << 30) - 1)) / kHugePageSize) - fill / P, n = x.n.raw_num() / P;
    verif_assert(r >= 0 && r < regions && off % kHugePageSize == 0 && x.n.raw_num() % P == 0 && n > 0 && h >= 0 && h + n <= left, "something other than whole unused hugepages was returned to the system");
    for (int i = h; i < h + n; ++i) {
      verif_assert(empty_hp(r, i), "memory in use was returned to the system");
      verif_assert(backed[r][i], "memory was returned to the system twice");
    }
    if (may_fail && verif_choice(2, "unback_fails")) { ++failures; return {false, 12}; }
    for (int i = h; i < h + n; ++i) backed[r][i] = false;
    unbacked_now += n;
    return {true, 0};
  }
};
struct Tag final : public MemoryTagFunction { void operator()(Range, std::optional<absl::string_view>) override {} };
static Unback unback; static Tag tag;
alignas(64) static char rbuf[kR][sizeof(HugeRegion)], sbuf[sizeof(HugeRegionSet<HugeRegion>)];
static HugeRegion* reg[kR]; static HugeRegionSet<HugeRegion>* set;
struct Live { int r, at, n; }; static Live live[16]; static int nlive;
static SmallSpanStats small_stats;
static void check() {
  size_t free = 0, unmapped = 0, fb = 0, runs_f[64] = {}, runs_u[64] = {};
  for (int r = 0; r < regions; ++r) {
    size_t u = 0, f = 0, un = 0, idle = 0, b = 0; int run = 0; bool run_b = false;
    for (int h = 0; h < left; ++h) {
      idle += backed[r][h] && empty_hp(r, h);
      b += backed[r][h];
      if (!backed[r][h]) un += P;
      for (int k = 0; k < P; ++k) {
        bool us = used[r][h * P + k];
        u += us; f += !us && backed[r][h];
        if (us || (run && run_b != backed[r][h])) { if (run) ++(run_b ? runs_f : runs_u)[run < 63 ? run : 63]; run = 0; }
        if (!us) { ++run; run_b = backed[r][h]; }
      }
    }
    if (run) ++(run_b ? runs_f : runs_u)[run < 63 ? run : 63];
    verif_assert(reg[r]->used_pages() == Length(u + fill) & reg[r]->free_pages() == Length(f) & reg[r]->unmapped_pages() == Length(un), "a region's count of used, free or unmapped pages is wrong");
    verif_assert(reg[r]->free_backed() == NHugePages(idle) & reg[r]->backed() == NHugePages(b + fill / P), "a region's count of idle or backed hugepages is wrong");
    BackingStats s = reg[r]->stats();
    verif_assert(s.system_bytes == 1ull << 30 & s.free_bytes == f * kPageSize & s.unmapped_bytes == un * kPageSize, "a region's statistics are wrong");
    free += f; unmapped += un; fb += idle;
    for (int h = 0; h < left; ++h) {
      PageBitmap bits;
      verif_assert(reg[r]->GetPageAllocationStatus(hp(r, fill / P + h), bits), "a hugepage of a region is denied");
      uint64_t want = 0, got = 0;
      for (int k = 0; k < P; ++k) { want |= (uint64_t)used[r][h * P + k] << k; got |= (uint64_t)bits.GetBit(k) << k; }
      verif_assert(want == got, "the pages in use of a hugepage are reported wrongly");
    }
  }
  BackingStats s = set->stats();
  verif_assert(s.system_bytes == (size_t)regions << 30 & s.free_bytes == free * kPageSize & s.unmapped_bytes == unmapped * kPageSize, "the statistics of the regions are wrong");
  verif_assert(set->free_backed() == NHugePages(fb), "the count of idle hugepages is wrong");
  small_stats = {}; LargeSpanStats ls; ls = {};
  set->AddSpanStats(&small_stats, &ls);
  size_t tf = ls.normal_pages.raw_num(), tu = ls.returned_pages.raw_num(), n = ls.spans, want = 0; bool same = true;
  for (size_t i = 0; i < kMaxPages.raw_num(); ++i) { tf += i * small_stats.normal_length[i]; tu += i * small_stats.returned_length[i]; n += small_stats.normal_length[i] + small_stats.returned_length[i]; }
  for (size_t i = 0; i < 64; ++i) { want += runs_f[i] + runs_u[i]; if (i < kMaxPages.raw_num() && i < 63) same &= (size_t)small_stats.normal_length[i] == runs_f[i] && (size_t)small_stats.returned_length[i] == runs_u[i]; }
  verif_assert(tf == free & tu == unmapped & n == want & same, "the table of free ranges is wrong");
}
static void get() {
  if (nlive == 16) verif_end_path();
  int n = verif_concretize(verif_range("n", verif_param(3), verif_param(4)));
  bool room = false;
  for (int r = 0; r < regions; ++r) for (int i = 0, run = 0; i < left * P; ++i) { run = used[r][i] ? 0 : run + 1; room |= run >= n; }
  PageId p; bool fr = false;
  bool got = set->MaybeGet(Length(n), &p, &fr);
  verif_assert(got == room, "a region with room was passed over, or room was found where there is none");
  if (!got) return;
  uint64_t off = p.start_uintptr() - kBase; int r = off >> 30, at = (int)((off & ((1ull << 30) - 1)) / kPageSize) - fill;
  verif_assert(r >= 0 && r < regions && at >= 0 && at + n <= left * P, "pages were handed out that are in use or outside the regions");
  bool was_unbacked = false;
  for (int i = at; i < at + n; ++i) {
    verif_assert(!used[r][i], "pages in use were handed out again");
    used[r][i] = true;
    was_unbacked |= !backed[r][i / P];
  }
  verif_assert(fr == was_unbacked, "whether the memory has to be backed is reported wrongly");
  for (int i = at; i < at + n; ++i) backed[r][i / P] = true;
  live[nlive++] = {r, at, n};
}
static void put() {
  if (!nlive) verif_end_path();
  int k = verif_choice(nlive, "which"); Live l = live[k];
  // the two halves of a range may be given back one after the other
  int part = l.n > 1 && verif_choice(2, "half") ? l.n / 2 : l.n;
  if (part == l.n) live[k] = live[--nlive]; else { live[k].at += part; live[k].n -= part; }
  for (int i = l.at; i < l.at + part; ++i) used[l.r][i] = false;
  int f0 = failures;
  verif_assert(set->MaybePut(Range(hp(l.r, 0).first_page() + Length(fill + l.at), Length(part))), "memory of a region was not taken back");
  if (!verif_param(5) && failures == f0) for (int i = l.at / P; i <= (l.at + part - 1) / P; ++i) verif_assert(!empty_hp(l.r, i) || !backed[l.r][i], "a hugepage that became empty was not returned to the system");
  if (verif_param(5)) for (int i = l.at / P; i <= (l.at + part - 1) / P; ++i) verif_assert(backed[l.r][i], "memory was returned to the system although it is to be kept");
}
static void release() {
  int idle = 0;
  for (int r = 0; r < regions; ++r) for (int h = 0; h < left; ++h) idle += backed[r][h] && empty_hp(r, h);
  unbacked_now = 0; int f0 = failures;
  int want = verif_concretize(verif_range("pages", 0, 3)) * P - (int)verif_choice(2, "less_one");
  if (want < 0) verif_end_path();
  bool hit = verif_choice(2, "hit_limit"), adaptive = verif_choice(2, "adaptive");
  Length got = set->ReleasePages(Length(want), adaptive, hit);
  verif_assert(got == Length(unbacked_now * P), "the amount reported released is not what was returned to the system");
  if (hit && failures == f0) verif_assert(unbacked_now >= std::min((want + P - 1) / P, idle), "less was released than asked for although more was idle");
  if (hit) verif_assert(unbacked_now <= (want + P - 1) / P + (regions - 1), "more was released than asked for");
}
void harness_main() {
  const int ops = verif_param(0); regions = verif_param(1); left = verif_param(2);
  fill = kRegionPages - left * P;
  set = new (sbuf) HugeRegionSet<HugeRegion>(verif_param(5) ? HugeRegionUsageOption::kUseForAllLargeAllocs : HugeRegionUsageOption::kDefault);
  for (int r = 0; r < regions; ++r) {
    reg[r] = new (rbuf[r]) HugeRegion(HugeRange::Make(hp(r, 0), HugeRegion::size()), unback, tag);
    set->Contribute(reg[r]);
    PageId p; bool fr = false;
    verif_assert(set->MaybeGet(Length(fill), &p, &fr) && fr && p == hp(r, 0).first_page(), "a fresh region could not be used");
  }
  may_fail = verif_param(6) & 2;
  check();
  for (int op = 0; op < ops; ++op) {
    switch ((int)verif_choice(verif_param(6) & 1 ? 3 : 2, "op")) {
      case 0: get(); break;
      case 1: put(); break;
      case 2: release(); break;
    }
    check();
  }
  if (verif_param(6) & 4) { release(); check(); }
  verif_assert(!set->MaybePut(Range(hp(regions, 0).first_page(), Length(1))), "memory of no region was taken back");
  verif_reach("done");
}
