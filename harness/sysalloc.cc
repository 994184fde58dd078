// The layer over mmap, mprotect and madvise: address ranges handed out and
// memory given back, with a kernel that may refuse any call.
#include <cerrno>
#include <new>
#include "tcmalloc/internal/memory_tag.h"
#include "tcmalloc/internal/numa.h"
#include "tcmalloc/internal/system_allocator.h"
#include "tcmalloc/static_vars.h"
#include "os_model.h"
#include "verif.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using Topo = NumaTopology<kNumaPartitions, kNumBaseClasses>;
ABSL_CONST_INIT static Topo topo;
static constexpr size_t kSmallMmap = 16 << 20;
ABSL_CONST_INIT static SystemAllocator<Topo, kNormalPartitions> small_sys{topo, kSmallMmap}, big_sys{topo, kMinMmapAlloc};
static const int kErrno = 77;

// ---- allocation
struct ARange { uintptr_t a, e; };
static ARange rw[32]; static int nrw;         // made accessible
static ARange got[32]; static int ngot;       // handed out
static uint64_t mmap_mask, prot_mask; static int mmap_calls, prot_calls; static size_t last_reserved;
static bool watching;
static uint64_t taken_mask; static int taken_calls;
static bool taken(uintptr_t a, size_t len) { return watching && taken_calls < 8 && (taken_mask >> taken_calls++ & 1); }
static bool mmap_fails(void* a, size_t len, int flags) {
  if (!watching) return false;
  int k = mmap_calls++;
  return mmap_mask >> k & 1;
}
static bool mprotect_fails(void* a, size_t len, int prot) { int k = prot_calls++; return prot_mask >> k & 1; }
static void on_mprotect(void* a, size_t len, int prot) {
  verif_assert(prot == 3, "memory is made readable and writable");
  verif_assert(nrw < 32, "too many ranges");
  rw[nrw++] = {(uintptr_t)a, (uintptr_t)a + len};
}
static void on_munmap(void* a, size_t len) {
  uintptr_t s = (uintptr_t)a;
  for (int i = 0; i < ngot; ++i) verif_assert(s + len <= got[i].a || got[i].e <= s, "a range in use was unmapped");
}
static bool inside(const ARange* r, int n, uintptr_t a, uintptr_t e) {
  bool ok = false;
  for (int i = 0; i < n; ++i) ok |= r[i].a <= a && e <= r[i].e;
  return ok;
}
static bool in_maps(uintptr_t a, uintptr_t e) {
  bool ok = false;
  for (int i = 0; i < os.nmaps; ++i) ok |= os.maps[i].addr <= a && e <= os.maps[i].addr + os.maps[i].len;
  return ok;
}
// mappings outside what the allocator may place ranges in
static int stray() { int n = 0; for (int i = 0; i < os.nmaps; ++i) n += os.maps[i].addr >= 0x300000000000 && os.maps[i].addr < 0x300000000000 + (1ull << 30) && verif_param(9); return n; }
// A region factory of the embedding program.
class MyRegion final : public AddressRegion {
 public:
  MyRegion(uintptr_t s, size_t n) : start(s), next(s), end(s + n) {}
  std::pair<void*, size_t> Alloc(size_t size, size_t alignment) override {
    uintptr_t r = (next + alignment - 1) & ~(alignment - 1);
    if (r < next || r > end || end - r < size) return {nullptr, 0};
    next = r + size;
    rw[nrw++] = {r, next};
    return {(void*)r, size};
  }
  uintptr_t start, next, end;
  static void operator delete(void*) {}
};
alignas(MyRegion) static char region_space[16][sizeof(MyRegion)]; static int nregions; static uint64_t create_mask; static int creates;
class MyFactory final : public AddressRegionFactory {
 public:
  AddressRegion* Create(void* start, size_t size, UsageHint hint) override {
    verif_assert((uintptr_t)start % 4096 == 0 && size % 4096 == 0, "a region was created on partial pages");
    verif_assert(in_maps((uintptr_t)start, (uintptr_t)start + size), "a region was created on addresses that are not reserved");
    for (int i = 0; i < nregions; ++i) { MyRegion* r = (MyRegion*)region_space[i]; verif_assert((uintptr_t)start + size <= r->start || r->end <= (uintptr_t)start, "two regions overlap"); }
    if (create_mask >> creates++ & 1) return nullptr;
    return new (region_space[nregions++]) MyRegion((uintptr_t)start, size);
  }
  static void operator delete(void*) {}
};
ABSL_CONST_INIT static MyFactory my_factory;

static void mode_alloc() {
  // params: 1 ops, 2 window, 3 alignment exponents from..to (4), 5 faults, 6 custom factory, 7 global size
  const int ops = verif_param(1);
  struct W { uint64_t lo, hi; };
  static const W kW[] = {{0, 6 << 20}, {(15 << 20), (17 << 20) + 1}, {(uint64_t{1} << 30) - 3000000, (uint64_t{1} << 30) + 3000000},
                         {(uint64_t{1} << 41) - 100, (uint64_t{1} << 42) + 100}, {0, ~uint64_t{0}}, {uint64_t{1} << 37, (uint64_t{1} << 40)}};
  const W w = kW[verif_param(2)];
  auto& sys = verif_param(7) ? big_sys : small_sys;
  const size_t min_mmap = verif_param(7) ? kMinMmapAlloc : kSmallMmap;
  const bool faults = verif_param(5);
  // The very first reservation of a process may not be refused: it seeds the placement.
  if (faults) { void* m = sys.MmapAligned(kHugePageSize, kHugePageSize, MemoryTag::kCold); got[ngot++] = {(uintptr_t)m, (uintptr_t)m + kHugePageSize}; }
  if (faults) { mmap_mask = verif_u8("mmap_refused") & 15; prot_mask = verif_u8("mprotect_refused") & 7; create_mask = verif_u8("create_refused") & 7; }
  if (verif_param(9) & 2) taken_mask = verif_u8("taken") & 7;
  static const MemoryTag kTags[] = {MemoryTag::kNormal, MemoryTag::kNormalP1, MemoryTag::kSampled, MemoryTag::kSampledP1, MemoryTag::kCold, MemoryTag::kMetadata};
  const int t0 = verif_param(9) & 4 ? verif_choice(6, "tag") : verif_choice(2, "tag") * 4;
  int nullable = 0;
  for (int op = 0; op < ops; ++op) {
    MemoryTag tag = kTags[op < 2 ? t0 : (t0 + verif_choice(2, "other_tag")) % 6];
    size_t bytes = w.hi == ~uint64_t{0} ? verif_u64("bytes") : verif_range("bytes", w.lo, w.hi);
    size_t align = verif_param(4) ? size_t{1} << verif_concretize(verif_range("align", verif_param(3), verif_param(4))) : 0;
    if (bytes == 0) verif_end_path();   // the page allocator never asks for nothing
    if (verif_param(6) == 2 && op == 1) { sys.SetRegionFactory(&my_factory); verif_assert(sys.GetRegionFactory() == &my_factory, "the region factory does not read back"); }
    const int maps0 = os.nmaps, regions0 = nregions;
    int p0 = prot_calls, m0 = mmap_calls, c0 = creates;
    watching = true; errno = kErrno;
    auto r = sys.Allocate(bytes, align, tag);
    watching = false;
    if (verif_param(6) == 1) verif_assert(os.nmaps - maps0 == nregions - regions0, "address space that nobody uses stays reserved");
    if (r.ptr == nullptr) {
      verif_assert(r.bytes == 0, "a failed request reports bytes");
      bool fault = prot_mask & (((1 << prot_calls) - 1) & ~((1 << p0) - 1));
      fault |= (create_mask & (((1 << creates) - 1) & ~((1 << c0) - 1))) != 0;
      verif_assert(fault || bytes > (uint64_t{1} << 42) || align > (uint64_t{1} << 42) || mmap_calls - m0 >= 1000, "a request that could be met failed");
      verif_reach("refused");
      continue;
    }
    uintptr_t a = (uintptr_t)r.ptr, e = a + r.bytes;
    bool faulted = (prot_mask & (((1 << prot_calls) - 1) & ~((1 << p0) - 1))) || (create_mask & (((1 << creates) - 1) & ~((1 << c0) - 1)));
    verif_assert(errno == kErrno || faulted, "a successful request changed errno");
    verif_assert(r.bytes >= bytes && e > a, "less memory than asked for was handed out");
    verif_assert((a & ((align > 4096 ? align : 4096) - 1)) == 0, "a range is not aligned as asked");
    verif_assert(GetMemoryTag(r.ptr) == tag && GetMemoryTag((void*)(e - 1)) == tag && e - a <= (uint64_t{1} << 42), "a range carries the wrong tag");
    verif_assert(e <= (uint64_t{1} << 47), "a range leaves the user address space");
    for (int i = 0; i < ngot; ++i) verif_assert(e <= got[i].a || got[i].e <= a, "a range overlaps one handed out before");
    verif_assert(in_maps(a, e), "a range was handed out that is not reserved");
    verif_assert(inside(rw, nrw, a, e), "a range was handed out that is not accessible");
    if (verif_param(6) == 1 || (verif_param(6) == 2 && op > 0)) { bool ok = false; for (int i = 0; i < nregions; ++i) { MyRegion* g = (MyRegion*)region_space[i]; ok |= g->start <= a && e <= g->end; } verif_assert(ok, "a range does not come from the configured region factory"); }
    got[ngot++] = {a, e};
    verif_assert(stray() == 0, "address space that nobody uses stays reserved");
    if (bytes <= min_mmap && align <= min_mmap) verif_reach("small"); else verif_reach("large");
    if (verif_param(8) && op == 0) {   // another reservation in between
      void* m = sys.MmapAligned(kHugePageSize * 2, kHugePageSize * 2, tag);
      if (m) {
        uintptr_t x = (uintptr_t)m, y = x + kHugePageSize * 2;
        verif_assert(x % (kHugePageSize * 2) == 0 && GetMemoryTag(m) == tag && GetMemoryTag((void*)(y - 1)) == tag, "a reservation is misplaced");
        verif_assert(in_maps(x, y), "a reservation is not mapped");
        for (int i = 0; i < ngot; ++i) verif_assert(y <= got[i].a || got[i].e <= x, "a reservation overlaps a range in use");
        got[ngot++] = {x, y};
      }
    }
  }
  verif_reach("done");
}

// decided before anything probes the kernel
struct Early { Early() { os.no_noreplace = verif_param(0) == 0 && (verif_param(9) & 1); } };
__attribute__((init_priority(101))) static Early early;
static int on_hint(void* a, size_t len, int advice) { verif_assert(advice == MADV_NOHUGEPAGE || advice == MADV_HUGEPAGE || !watching, "fresh memory was given back"); return EINVAL; }
// ---- release
static uintptr_t rel_s, rel_e, rel_start, rel_end; static int rel_ok, rel_bad, eagain, rel_calls, munlocks, last_release_err, last_err, seq[16];
static MadvisePreference pref; static bool asked_lazy, asked_eager, asked_plain, asked_remove_ok, unlock_ok;
static int answer(const char* name) {
  int k = verif_choice(eagain < 2 ? 4 : 3, name);
  if (k == 3) { eagain++; return EAGAIN; }
  return k == 0 ? 0 : k == 1 ? EINVAL : ENOMEM;
}
static int probe_answer;
static int on_release(void* p, size_t n, int advice) {
  uintptr_t s = (uintptr_t)p, e = s + n;
  verif_assert(rel_start <= s && e <= rel_end && s <= e, "memory outside the range was given back");
  verif_assert(s % 4096 == 0 && e % 4096 == 0, "part of a page was given back");
  verif_assert(s == rel_s && e == rel_e, "not all whole pages of the range were given back");
  bool lazy = pref == MadvisePreference::kFreeOnly || pref == MadvisePreference::kFreeAndDontNeed;
  bool eager = pref == MadvisePreference::kDontNeed || pref == MadvisePreference::kFreeAndDontNeed;
  switch (advice) {
    case MADV_REMOVE: break;
    case MADV_FREE: asked_lazy = true; verif_assert(lazy, "memory was freed lazily against the preference"); break;
    case MADV_DONTNEED: case MADV_DONTNEED_LOCKED: asked_eager = true; verif_assert(advice == (probe_answer == 0 ? MADV_DONTNEED_LOCKED : MADV_DONTNEED), "locked memory is not given back although the system can"); verif_assert(eager, "memory was dropped against the preference"); break;
    default: verif_assert(false, "an advice that does not release memory");
  }
  verif_assert(rel_calls++ < 16, "the system is asked again and again");
  int e2 = answer("answer");
  last_release_err = e2;
  if (e2 == 0 && advice == MADV_REMOVE) asked_remove_ok = true;
  if (e2 == 0) rel_ok++;
  else rel_bad++;
  return e2;
}
static int on_probe(void* p, size_t n, int advice) { return probe_answer; }
static int on_munlock(const void* p, size_t n) {
  verif_assert((uintptr_t)p == rel_s && (uintptr_t)p + n == rel_e, "another range was unlocked");
  verif_assert(munlocks++ < 4, "unlocked again and again");
  int e = answer("munlock");
  if (e == 0) unlock_ok = true;
  return e;
}
static void mode_release() {
  os.real_madvise = true;
  probe_answer = verif_choice(2, "locked_supported") ? 0 : EINVAL;   // kernels before 5.18
  os.on_madvise = on_probe;
  system_allocator_internal::MadvDontNeedAdviceAvailable();
  pref = (MadvisePreference)verif_choice(4, "preference");
  small_sys.set_madvise_preference(pref);
  verif_assert(small_sys.madvise_preference() == pref, "the preference does not read back");
  rel_start = verif_range("start", 1, (uint64_t{1} << 47));
  size_t len = verif_range("length", 0, (uint64_t{1} << 46));
  rel_end = rel_start + len;
  rel_s = (rel_start + 4095) & ~uintptr_t{4095}; rel_e = rel_end & ~uintptr_t{4095};
  os.on_madvise = on_release; os.on_munlock = on_munlock;
  int before = small_sys.release_errors();
  errno = kErrno;
  auto st = small_sys.Release((void*)rel_start, len);
  verif_assert(errno == kErrno, "errno changed");
  if (rel_e <= rel_s) {
    verif_assert(!st.success && rel_calls == 0, "a range without a whole page was given back");
    verif_reach("nothing");
    return;
  }
  verif_assert(rel_calls > 0, "the system was never asked");
  last_err = last_release_err;
  if (!st.success) verif_assert(last_err != 0, "memory that was given back is reported as kept");
  if (st.success) verif_assert(rel_ok > 0 && last_err == 0, "memory that was not given back is reported as given back");
  verif_assert(small_sys.release_errors() == before + (st.success ? 0 : 1), "a failure to give memory back is counted wrongly");
  if (!asked_remove_ok) {
    if (pref == MadvisePreference::kFreeOnly || pref == MadvisePreference::kFreeAndDontNeed) verif_assert(asked_lazy, "memory was not freed lazily although configured");
    if (pref == MadvisePreference::kDontNeed || pref == MadvisePreference::kFreeAndDontNeed) verif_assert(asked_eager, "memory was not dropped although configured");
  }
  if (!st.success && probe_answer != 0 && asked_eager) verif_assert(munlocks > 0, "memory that may be locked was not unlocked");
  if (munlocks) verif_reach("unlocked");
  verif_reach(st.success ? "released" : "failed");
}
// ---- collapse
static int on_collapse(void* p, size_t n, int advice) {
  verif_assert((uintptr_t)p == rel_start && (uintptr_t)p + n == rel_end && advice == MADV_COLLAPSE, "another range was collapsed");
  static const int kA[] = {0, EAGAIN, EINTR, EINVAL, ENOMEM, EBUSY};
  verif_assert(rel_calls < 3, "a collapse is retried without end");
  if (rel_calls) verif_assert(last_err == EAGAIN || last_err == EINTR, "a collapse was retried after a final answer");
  rel_calls++;
  return last_err = kA[verif_choice(6, "answer")];
}
static int on_back(void* p, size_t n, int advice) {
  verif_assert((uintptr_t)p == rel_start && (uintptr_t)p + n == rel_end && advice != MADV_DONTNEED && advice != MADV_DONTNEED_LOCKED && advice != MADV_FREE && advice != MADV_REMOVE, "memory about to be used was given back");
  return rel_calls ? EINVAL : 0;
}
static void mode_collapse() {
  os.real_madvise = true; os.on_madvise = on_collapse;
  rel_start = verif_u64("start"); size_t len = verif_u64("length"); rel_end = rel_start + len;
  errno = kErrno;
  auto st = small_sys.Collapse((void*)rel_start, len);
  verif_assert(rel_calls > 0 && st.success == (last_err == 0), "the outcome of a collapse is reported wrongly");
  if (!st.success) verif_assert(st.error_number == last_err, "the reason of a failed collapse is reported wrongly");
  verif_assert(errno == kErrno, "errno changed");
  if (!st.success && (last_err == EAGAIN || last_err == EINTR)) verif_assert(rel_calls == 3, "a collapse that may succeed later was not retried");
  os.on_madvise = on_back;
  small_sys.Back((void*)rel_start, len);
  verif_reach("done");
}
void harness_main() {
  switch (verif_param(0)) {
    case 0:
      os.mmap_fails = mmap_fails; os.mprotect_fails = mprotect_fails; os.on_mprotect = on_mprotect; os.on_munmap = on_munmap;
      os.taken = taken; os.real_madvise = true; os.on_madvise = on_hint;
      if (verif_param(6) == 1) { small_sys.SetRegionFactory(&my_factory); verif_assert(small_sys.GetRegionFactory() == &my_factory, "the region factory does not read back"); }
      else { watching = false; }
      return mode_alloc();
    case 1: return mode_release();
    case 2: return mode_collapse();
  }
}
