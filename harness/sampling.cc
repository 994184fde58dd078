// Sampling: which allocations are sampled and with what weight, and what the
// heap, peak-heap and allocation profiles then contain.
#include <optional>
#include "tcmalloc/sampler.h"
#include "tcmalloc/parameters.h"
#include "os_model.h"
#include "e2e.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
extern "C" const ProfileBase* MallocExtension_Internal_SnapshotCurrent(ProfileType type);
extern "C" AllocationProfilingTokenBase* MallocExtension_Internal_StartAllocationProfiling();
extern "C" bool MallocExtension_Internal_GetNumericProperty(const char* name_data, size_t name_size, size_t* value);
static size_t prop(const char* n) { size_t v = 0, l = 0; while (n[l]) ++l; verif_assert(MallocExtension_Internal_GetNumericProperty(n, l, &v), "a documented property is unknown"); return v; }

// Recording k bytes and then m is recording k+m+1 at once; recording says in
// advance whether it will sample; the weight is the interval plus what the
// allocation ran past the sampling point.
static void mode_sampler() {
  TCMallocInternalFree(TCMallocInternalMalloc(1));
  const int64_t interval = verif_param(1);
  TCMalloc_Internal_SetProfileSamplingInterval(interval);
  Sampler a;
  for (int i = verif_choice(3, "rounds"); i > 0; --i) for (int j = 0; j < 64 && !a.RecordAllocation(interval + (i << 10)); ++j) {}
  size_t w = 0;
  if (interval) while (!(w = a.RecordAllocation(interval * 4 + 64))) {}    // the interval is in force from here on
  Sampler b = a, c = a;
  const uint64_t hi = verif_param(2);
  size_t k = verif_range("k", 0, hi), m = verif_range("m", 0, hi);
  bool will = a.WillRecordAllocation(k);
  size_t w1 = a.RecordAllocation(k);
  verif_assert(will == (w1 != 0) || interval == 0, "sampling is predicted wrongly");
  if (interval == 0) { verif_assert(w1 == 0 && a.RecordAllocation(m) == 0, "an allocation was sampled although sampling is off"); verif_reach("off"); return; }
  if (w1) {
    verif_assert(w1 >= (size_t)interval && w1 - interval <= k + 1, "the weight of a sample is wrong");
    // less than that by one byte moves the weight by one
    size_t w2 = k ? c.RecordAllocation(k - 1) : 0;
    if (k) verif_assert(w2 ? w2 == w1 - 1 : w1 == (size_t)interval, "the sampling point is off");
    verif_reach("sampled");
  } else {
    size_t w2 = a.RecordAllocation(m);
    size_t w3 = b.RecordAllocation(k + m + 1);
    verif_assert(w2 == w3, "two small allocations are not sampled like one of their size");
    verif_reach(w2 ? "sampled-second" : "not-sampled");
  }
}

struct Live { char* p; size_t n, a, id, cap; bool sr; int e; bool in; int64_t at; };
static int64_t clock_ns = 1000;
extern "C" int64_t verif_cycles() { return clock_ns; }
static Live live[16], peak[16], ever[16]; static int nlive, npeak, never;
static bool peaks; static size_t peak_size, live_size;
static size_t kind(int e) { return e == E_MALLOC || e == E_CALLOC || e == E_REALLOC_NULL || e == E_ALLOC_AT_LEAST ? 1 : takes_align(e) && e != E_NEW_ALIGNED && e != E_SIZE_RETURNING_ALIGNED ? 2 : 0; }
static void compare(const Profile& prof, const Live* set, int n, const char* what, int interval, bool in_order) {
  bool seen[16] = {};
  int count = 0;
  size_t handles[16]; 
  prof.Iterate([&](const Profile::Sample& s) {
    ++count;
    int i = 0;
    auto belongs = [&](const Live& l) {
      if ((is_guarded(l.p) ? (char*)((uintptr_t)l.p & ~8191ull) : l.p) != s.span_start_address || l.n != s.requested_size || s.requested_size_returning != l.sr) return false;
      if ((l.a || kind(l.e) == 0) && (s.requested_alignment.has_value() != (l.a != 0) || (l.a && (size_t)*s.requested_alignment != l.a))) return false;
      if (s.allocation_time != absl::FromUnixNanos(l.at)) return false;
      return s.type == (kind(l.e) == 0 ? AllocationType::New : kind(l.e) == 1 ? AllocationType::Malloc : AllocationType::AlignedMalloc) &&
             s.access_hint == (l.e == E_NEW_COLD ? hot_cold_t{0} : hot_cold_t{255});
    };
    while (i < n && (seen[i] || !belongs(set[i]))) ++i;
    verif_assert(i < n, "a profile lists an allocation that does not belong, or wrongly");
    seen[i] = true;
    const Live& l = set[i];
    verif_assert(s.allocated_size >= l.n, "a profile lists too small an allocated size");
    if (interval == 1 && !is_guarded(l.p)) verif_assert(s.allocated_size == l.id, "a profile lists another size than the block really has");
    verif_assert(s.access_allocated == (l.e == E_NEW_COLD ? Profile::Sample::Access::Cold : Profile::Sample::Access::Hot), "a profile lists the wrong kind of memory");
    const bool small = l.n <= 262144;
    verif_assert(small || s.allocated_size % 8192 == 0, "a profile lists a large block as no whole number of pages");
    using GS = Profile::Sample::GuardedStatus;
    if (is_guarded(l.p)) verif_assert(s.guarded_status == GS::Guarded && (!l.sr || s.allocated_size == l.cap), "a profile does not call a guarded allocation so"), verif_reach("guarded sample");
    else if (verif_param(9)) verif_assert(s.guarded_status != GS::Guarded, "a profile calls an allocation guarded that is not");
    else verif_assert(small ? s.guarded_status == GS::Disabled || (s.guarded_status == GS::LargerThanOnePage && s.allocated_size > 8192) : s.guarded_status == GS::NotAttempted, "a profile gives the wrong reason for not guarding");
    handles[count - 1] = (size_t)s.alloc_handle;
    verif_assert(handles[count - 1] != 0, "a sample has no handle");
    for (int j = 0; j + 1 < count; ++j) verif_assert(handles[j] != handles[count - 1], "two samples have one handle");
    if (interval == 1) verif_assert(s.count == 1 && s.sum == (int64_t)s.allocated_size, "with every allocation sampled, each stands for itself");
    else verif_assert(s.count >= 1 && s.sum == s.count * (int64_t)s.allocated_size, "a sample stands for nothing");
    verif_assert(s.depth == os.stack_depth, "a profile lists the wrong call stack");
    for (int d = 0; d < s.depth; ++d) verif_assert(s.stack[d] == (void*)(uintptr_t)(0x1000 + 16 * d), "a profile lists the wrong call stack");
  });
  verif_assert(count == n, what);
}
static Profile snapshot(ProfileType t) { return ProfileAccessor::MakeProfile(std::unique_ptr<const ProfileBase>(MallocExtension_Internal_SnapshotCurrent(t))); }
static void mode_profile() {
  // params: ops, sizes lo..hi, interval, peaks, allocation profile
  const int ops = verif_param(1), interval = verif_param(4);
  if (interval == 1) sample_everything();
  else { TCMallocInternalFree(TCMallocInternalMalloc(1)); TCMalloc_Internal_SetPeakSamplingHeapGrowthFraction(0); TCMalloc_Internal_SetProfileSamplingInterval(interval); for (int i = 0; i < 20000; ++i) { void* p = TCMallocInternalMalloc(30000); bool s = is_sampled(p); TCMallocInternalFree(p); if (s) break; } }
  TCMalloc_Internal_SetGuardedSamplingInterval(verif_param(9) ? 1 : -1);
  if (verif_param(9)) activate_guarded();
  peaks = verif_param(5);
  if (peaks) TCMalloc_Internal_SetPeakSamplingHeapGrowthFraction(1.0);
  static const int kE[] = {E_MALLOC, E_NEW, E_CALLOC, E_NEW_ALIGNED, E_ALIGNED_ALLOC, E_SIZE_RETURNING, E_NEW_COLD};
  const int ne = verif_param(7);
  std::unique_ptr<AllocationProfilingTokenBase> token;
  size_t frag0 = prop("tcmalloc.sampled_internal_fragmentation");
  verif_assert(frag0 == 0, "fragmentation without a sampled allocation");
  os.stack_depth = verif_param(8);
  const int start = verif_param(6) ? verif_choice(ops, "start") : -1;
  for (int op = 0; op < ops; ++op) {
    if (op == start) token.reset(MallocExtension_Internal_StartAllocationProfiling());
    int what = verif_choice(nlive ? ne + 1 : ne, "op");
    if (what < ne) {
      int e = kE[what];
      size_t n = verif_concretize(verif_range("n", verif_param(2), verif_param(3)));
      size_t a = takes_align(e) ? op & 1 ? 8 : 64 : 0, cap = 0;
      clock_ns += 1000 + op;
      char* p = (char*)allocate(e, n, a, &cap);
      verif_assert(p != nullptr, "an allocation failed");
      bool s = is_sampled(p);
      if (interval == 1 && n <= 262144) verif_assert(s, "with every allocation sampled, one was not");
      Live l = {p, n, a, TCMallocInternalMallocSize(p), cap, e == E_SIZE_RETURNING, e, s, clock_ns};
      live[nlive++] = l;
      if (interval == 1 || s) {
        l.in = true;
        if (token) ever[never++] = l;
        live[nlive - 1].in = true;
        if (interval == 1) {
          live_size += live[nlive - 1].id;
          if (peaks && live_size > peak_size) { peak_size = live_size; npeak = nlive; for (int i = 0; i < nlive; ++i) peak[i] = live[i]; }
        }
      }
    } else {
      int i = verif_choice(nlive, "which");
      Live l = live[i];
      live[i] = live[--nlive];
      if (interval == 1) live_size -= l.id;
      release_plain(l.e, l.p, l.a);
    }
  }
  if (token) { Profile pr = std::move(*token).Stop(); compare(pr, ever, never, "an allocation profile misses an allocation", interval, false); verif_reach("allocation profile"); }
  Live s[16]; int n = 0;
  for (int i = 0; i < nlive; ++i) if (live[i].in) s[n++] = live[i];
  { Profile pr = snapshot(ProfileType::kHeap); compare(pr, s, n, "the heap profile misses a live allocation", interval, false); }
  if (peaks) { Profile pr = snapshot(ProfileType::kPeakHeap); compare(pr, peak, npeak, "the peak profile misses an allocation", interval, false); verif_reach("peak"); }
  size_t waste = 0;
  if (interval == 1 && !verif_param(9)) {
    for (int i = 0; i < n; ++i) waste += s[i].id - s[i].n;
    size_t f = prop("tcmalloc.sampled_internal_fragmentation");
    // each contribution is rounded down to whole bytes
    verif_assert(f <= waste + n && f + 2 * n >= waste, "internal fragmentation is not what the live samples waste");
  }
  while (nlive) { Live l = live[--nlive]; release_plain(l.e, l.p, l.a); }
  { Profile pr = snapshot(ProfileType::kHeap); compare(pr, s, 0, "the heap profile of an empty heap lists something", interval, false); }
  verif_assert(prop("tcmalloc.sampled_internal_fragmentation") <= (size_t)2 * ops, "internal fragmentation remains without live samples");
  verif_assert(tc_globals.sampled_objects_size_.value() == 0, "sampled bytes remain without live samples");
  verif_reach("done");
}
void harness_main() {
  switch (verif_param(0)) { case 0: return mode_sampler(); case 1: return mode_profile(); }
}
