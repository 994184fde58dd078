// Hugepage address map, allocator and cache against a page-by-page shadow.
#include "tcmalloc/huge_address_map.h"
#include "tcmalloc/huge_allocator.h"
#include "tcmalloc/huge_cache.h"
#include "verif.h"
using namespace tcmalloc::tcmalloc_internal;
static const uintptr_t kBase = 0x100000000000;
constexpr int N = 40;
static HugePage hp(int i) { return HugePageContaining(reinterpret_cast<void*>(kBase + i * kHugePageSize)); }
static int idx(HugePage p) { uint64_t o = reinterpret_cast<uintptr_t>(p.start_addr()) - kBase; verif_assert(o / kHugePageSize < N && o % kHugePageSize == 0, "an address outside the managed memory appeared"); return o / kHugePageSize; }
struct Meta final : public MetadataAllocator {
  char buf[64][128]; int n = 0;
  void* operator()(size_t b) override { verif_assert(b <= 128 && n < 64, "metadata"); return buf[n++]; }
};
static Meta meta;
static int pick(const char* name, int lo, int hi) { uint64_t v = verif_range(name, lo, hi); return verif_param(2) ? verif_concretize(v) : v; }

// ---- address map
static bool in_map[N];
alignas(8) static char mapbuf[sizeof(HugeAddressMap)];
static void check_map(HugeAddressMap& m) {
  m.Check();
  size_t nr = 0, total = 0; int longest = 0, run = 0;
  for (int i = 0; i < N; ++i) {
    if (in_map[i]) { ++total; if (!run) ++nr; ++run; if (run > longest) longest = run; } else run = 0;
  }
  verif_assert(m.nranges() == nr, "adjacent free ranges were not merged, or ranges were lost");
  verif_assert(m.total_mapped() == NHugePages(total), "the total size is wrong");
  if (m.root()) verif_assert(m.root()->longest() == NHugePages(longest), "the longest range is wrong");
  else verif_assert(total == 0, "ranges were lost");
  int at = 0; size_t seen = 0;
  for (const HugeAddressMap::Node* n = m.first(); n; n = n->next()) {
    int s = idx(n->range().start()), l = n->range().len().raw_num();
    verif_assert(s >= at && s + l <= N, "ranges are out of order or overlap");
    for (int i = at; i < s; ++i) verif_assert(!in_map[i], "a free range is missing");
    for (int i = s; i < s + l; ++i) verif_assert(in_map[i], "a range covers pages that are not free");
    at = s + l; ++seen;
    verif_assert(seen <= N, "the tree has a cycle");
  }
  for (int i = at; i < N; ++i) verif_assert(!in_map[i], "a free range is missing");
  for (int i = 0; i < 10; ++i) {
    const HugeAddressMap::Node* p = m.Predecessor(hp(i));
    int j = i; while (j >= 0 && !in_map[j]) --j;
    if (j < 0) verif_assert(p == nullptr, "a predecessor was found where there is none");
    else { while (j > 0 && in_map[j - 1]) --j; verif_assert(p && p->range().start() == hp(j), "the wrong predecessor was found"); }
  }
}
static void map_step(HugeAddressMap& m) {
  if (verif_choice(2, "op") == 0) {
    int a = pick("at", 0, 9), l = pick("len", 1, 3);
    verif_assume(a + l <= 10);
    for (int i = 0; i < 3; ++i) if (i < l) verif_assume(!in_map[a + i]);
    m.Insert(HugeRange::Make(hp(a), NHugePages(l)));
    for (int i = 0; i < l; ++i) in_map[a + i] = true;
  } else {
    HugeAddressMap::Node* n = m.Predecessor(hp(pick("at", 0, 9)));
    if (!n) verif_end_path();
    int s = idx(n->range().start()), l = n->range().len().raw_num();
    m.Remove(n);
    for (int i = 0; i < l; ++i) in_map[s + i] = false;
  }
  check_map(m);
}
// ---- allocator and cache
enum St : uint8_t { NONE, FREE, CACHED, USED };
static St st[N];
static int sys_next, sys_calls;
struct Virt final : public VirtualAllocator {
  AddressRange operator()(size_t bytes, size_t align) override {
    verif_assert(align == kHugePageSize && bytes % kHugePageSize == 0 && bytes > 0, "a badly formed system request");
    ++sys_calls;
    int n = bytes / kHugePageSize;
    int how = verif_choice(4, "system");          // fail, exact, with a gap, more than asked
    if (how == 0) return {nullptr, 0};
    if (how == 2) ++sys_next;
    if (how == 3) ++n;
    if (sys_next + n > N) verif_end_path();
    int s = sys_next; sys_next += n;
    for (int i = s; i < s + n; ++i) { verif_assert(st[i] == NONE, "harness"); st[i] = FREE; }
    return {hp(s).start_addr(), n * kHugePageSize};
  }
};
static Virt virt;
static bool fail_unback;
struct Unback final : public MemoryModifyFunction {
  MemoryModifyStatus operator()(Range r) override {
    int s = idx(HugePageContaining(r.p)), n = r.n.raw_num() / kPagesPerHugePage.raw_num();
    verif_assert(r.n.raw_num() % kPagesPerHugePage.raw_num() == 0, "part of a hugepage was returned to the OS");
    for (int i = s; i < s + n; ++i) verif_assert(st[i] == CACHED, "memory in use, or not backed, was returned to the OS");
    if (fail_unback) return {false, 12};
    for (int i = s; i < s + n; ++i) st[i] = FREE;
    return {true, 0};
  }
};
static Unback unback;
static int64_t t_now = 1000;
static int64_t now() { return t_now; }
static double freq() { return 1000; }
alignas(64) static char abuf[sizeof(HugeAllocator)], cbuf[sizeof(HugeCache)];
static HugeAllocator* al; static HugeCache* ca;
static HugeRange live[8]; static int nlive;
static int count(St s) { int c = 0; for (int i = 0; i < N; ++i) c += st[i] == s; return c; }
static void check_all() {
  int u = count(USED), f = count(FREE), c = count(CACHED);
  verif_assert(al->system() == NHugePages(u + f + c), "the amount obtained from the system is wrong");
  verif_assert(al->size() == NHugePages(f), "the amount of unused address space is wrong");
  BackingStats s = al->stats();
  verif_assert(s.system_bytes == (u + f + c) * kHugePageSize && s.unmapped_bytes == f * kHugePageSize && s.free_bytes == 0, "allocator statistics are wrong");
  LargeSpanStats ls; ls = {}; al->AddSpanStats(nullptr, &ls);
  verif_assert(ls.returned_pages == NHugePages(f).in_pages(), "allocator span statistics are wrong");
  for (int i = 0; i < N; i += 3) verif_assert(al->Contains(hp(i)) == (st[i] == FREE), "membership in the allocator is wrong");
  if (!ca) return;
  verif_assert(ca->size() == NHugePages(c), "the cache's size is wrong");
  verif_assert(ca->usage() == NHugePages(u), "the cache's usage is wrong");
  BackingStats t = ca->stats();
  verif_assert(t.system_bytes == (u + c) * kHugePageSize && t.free_bytes == c * kHugePageSize && t.unmapped_bytes == 0, "cache statistics are wrong");
  LargeSpanStats cs; cs = {}; ca->AddSpanStats(nullptr, &cs);
  verif_assert(cs.normal_pages == NHugePages(c).in_pages(), "cache span statistics are wrong");
}
static void step() {
  int ops = ca ? 5 : 2;
  switch (verif_choice(ops, "op")) {
    case 0: {
      int n = pick("n", 1, verif_param(3));
      int longest_free = 0, longest_cached = 0;
      for (int i = 0, a = 0, b = 0; i < N; ++i) { a = st[i] == FREE ? a + 1 : 0; b = st[i] == CACHED ? b + 1 : 0; if (a > longest_free) longest_free = a; if (b > longest_cached) longest_cached = b; }
      int sc = sys_calls;
      bool rel = false;
      HugeRange r = ca ? ca->Get(NHugePages(n), &rel) : al->Get(NHugePages(n));
      if (ca) verif_assert((longest_cached >= n) == (r.valid() && !rel), "the cache was bypassed although it had room, or the reverse");
      if (longest_free >= n || longest_cached >= n) verif_assert(sc == sys_calls && r.valid(), "the system was asked although there was room");
      if (!r.valid()) break;
      if (nlive == 8) verif_end_path();
      int s = idx(r.start());
      verif_assert(r.len() == NHugePages(n) && s + n <= N, "the range has the wrong length");
      for (int i = s; i < s + n; ++i) {
        verif_assert(st[i] != USED, "two live ranges overlap");
        verif_assert(st[i] == (ca && !rel ? CACHED : FREE), "backing of the range is reported wrongly");
        st[i] = USED;
      }
      live[nlive++] = r;
      break;
    }
    case 1: case 4: {
      if (!nlive) verif_end_path();
      int k = verif_choice(nlive, "which");
      HugeRange r = live[k];
      live[k] = live[--nlive];
      int s = idx(r.start());
      int keep = pick("keep", 0, r.len().raw_num() - 1);     // a tail can be released on its own
      if (keep > 0) {
        live[nlive++] = HugeRange::Make(r.start(), NHugePages(keep));
        r = HugeRange::Make(r.start() + NHugePages(keep), r.len() - NHugePages(keep));
        s += keep;
      }
      bool unbacked = verif_choice(ca ? 2 : 1, "unbacked");
      for (int i = s; i < s + (int)r.len().raw_num(); ++i) st[i] = ca && !unbacked ? CACHED : FREE;
      if (!ca) al->Release(r); else if (unbacked) ca->ReleaseUnbacked(r); else { fail_unback = verif_choice(2, "unback_fails"); ca->Release(r); fail_unback = false; }
      break;
    }
    case 2: {
      fail_unback = verif_choice(2, "unback_fails");
      int n = pick("release", 1, 12), c0 = count(CACHED);
      HugeLength got = ca->ReleaseCachedPages(NHugePages(n));
      verif_assert(got == NHugePages(c0 - count(CACHED)), "the amount reported released is not what was unmapped");
      if (!fail_unback) verif_assert(got >= NHugePages(n < c0 ? n : c0), "less was released than asked for although more was cached");
      fail_unback = false;
      break;
    }
    case 3: t_now += verif_range("dt", 0, 1) ? 3000 : 200000; break;
  }
  check_all();
}
void harness_main() {
  int mode = verif_param(0), steps = verif_param(1);
  if (mode == 0 || mode == 3) {
    HugeAddressMap* m = new (mapbuf) HugeAddressMap(meta);
    if (mode == 3) {          // several separate ranges, inserted in every order
      int at[6] = {0, 2, 4, 6, 9, 12}, k = verif_param(3);
      for (int left = k; left > 0; --left) {
        int c = verif_choice(left, "order"), a = at[c];
        for (int i = c; i + 1 < left; ++i) at[i] = at[i + 1];
        int l = a == 2 ? 1 : a == 6 ? 2 : 1;
        m->Insert(HugeRange::Make(hp(a), NHugePages(l)));
        for (int i = 0; i < l; ++i) in_map[a + i] = true;
      }
      check_map(*m);
    }
    for (int i = 0; i < steps; ++i) map_step(*m);
  } else {
    al = new (abuf) HugeAllocator(virt, meta);
    if (mode == 2) ca = new (cbuf) HugeCache(*al, meta, unback, absl::Seconds(1), Clock{now, freq});
    check_all();
    for (int i = 0; i < steps; ++i) step();
  }
  verif_reach("done");
}
