// The guarded-page pool: which slot an allocation gets (for every random
// seed), what is accessible when, and what the pool reports about any address.
#include "tcmalloc/guarded_page_allocator.h"
#include "tcmalloc/parameters.h"
#include "os_model.h"
#include "e2e.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using Status = Profile::Sample::GuardedStatus;
static bool symbolic_clock;
extern "C" int64_t verif_cycles() { return symbolic_clock ? (int64_t)verif_concretize(verif_range("clock", 0, verif_param(6))) : 1000000000000ll; }
static constexpr uintptr_t kPg = 8192;
static const int kMaxSlots = 8;
static bool refuse;
static bool mprotect_fails(void*, size_t, int prot) { return refuse && (prot & 2); }
static void on_mprotect(void* p, size_t n, int prot) {
  if (prot & 2) { for (size_t i = 0; i < n; i += 4096) if (!verif_is_mapped((char*)p + i, 4096)) verif_map((char*)p + i, 4096); }
  else if (prot == 0) verif_unmap(p, n);
}
static GuardedPageAllocator* pool_;   // at an address of its own: the seed depends on it
#define pool (*pool_)
struct Slot { uintptr_t page; char* p; size_t n; size_t align; int state; int depth; };   // state 1 live, 2 released
static Slot slots[kMaxSlots]; static int nslots, nlive;
static int find_slot(uintptr_t page) { for (int i = 0; i < nslots; ++i) if (slots[i].page == page) return i; return -1; }
static StackTrace trace(int depth, size_t n) {
  StackTrace t;
  t.depth = depth;
  for (int i = 0; i < depth; ++i) t.stack[i] = (void*)(uintptr_t)(0x4000 + 16 * i + 256 * depth);
  t.requested_size = n;
  return t;
}
static int depth_of(int op) { static const int k[] = {3, 5, 1, 2, 4, 6}; return k[op % 6]; }
static bool mapped(uintptr_t a) { return verif_is_mapped((void*)verif_concretize(a & ~uintptr_t{4095}), 1); }
static void check_slot(const Slot& s) {
  if (s.state == 0) return;
  const bool after = verif_choice(2, "outside");
  // as far as half a guard page away, or up to the ends of the pool
  uintptr_t lo = s.page - kPg, hi = s.page + 2 * kPg - 1;
  uintptr_t a = after ? verif_range("addr", lo - (uintptr_t)s.p + (uint64_t{1} << 40), hi - (uintptr_t)s.p + (uint64_t{1} << 40)) - (uint64_t{1} << 40) + (uintptr_t)s.p
                      : (uintptr_t)s.p + verif_range("inside", 0, kPg);
  const bool first = !pool.PointerIsMine((void*)(s.page - kPg - 1)), last = !pool.PointerIsMine((void*)(s.page + 2 * kPg));
  if (!first) verif_assume(a > s.page - kPg / 2);
  if (!last) verif_assume(a < s.page + kPg + kPg / 2);
  if (!after) { if (s.n == 0) return; verif_assume(a < (uintptr_t)s.p + s.n); }
  verif_assert(pool.PointerIsMine((void*)a), "an address in the pool is not recognised");
  auto os2 = pool.GetAllocationOffsetAndSize((void*)a);
  verif_assert(os2.second == s.n && (uintptr_t)os2.first == a - (uintptr_t)s.p, "an address is attributed to the wrong allocation");
  verif_assert(pool.PointerIsCorrectlyAligned((void*)a) == (a == (uintptr_t)s.p), "an address inside an allocation passes for its start");
  GuardedAllocationsStackTrace *at = nullptr, *dt = nullptr;
  auto e = pool.GetStackTraces((void*)a, &at, &dt);
  verif_assert((int)at->depth == s.depth, "the call stack of another allocation is reported");
  for (int i = 0; i < s.depth; ++i) verif_assert(at->stack[i] == (void*)(uintptr_t)(0x4000 + 16 * i + 256 * s.depth), "the call stack of another allocation is reported");
  verif_assert((int)dt->depth == (s.state == 2 ? os.stack_depth : 0), "the call stack of the release is wrong");
  for (int i = 0; s.state == 2 && i < os.stack_depth; ++i) verif_assert(dt->stack[i] == (void*)(uintptr_t)(0x1000 + 16 * i), "the call stack of the release is wrong");
  if (s.state == 2) {
    verif_assert(e == GuardedAllocationsErrorType::kUseAfterFree, "use after release is not called that");
    verif_assert(!mapped(a), "released memory or a guard page is accessible");
  } else {
    bool in_page = a >= s.page && a < s.page + kPg;
    verif_assert(mapped(a) == (in_page && s.n), "a guard page is accessible or a live page is not");
    auto want = a < (uintptr_t)s.p ? GuardedAllocationsErrorType::kBufferUnderflow : a >= (uintptr_t)s.p + s.n ? GuardedAllocationsErrorType::kBufferOverflow : GuardedAllocationsErrorType::kUnknown;
    verif_assert(e == want, "an access outside an allocation is classified wrongly");
  }
}
static void mode_history() {
  // params: ops, max live, slots, sizes lo..hi, seed bound, faults
  const int ops = verif_param(1), maxp = verif_param(2), total = verif_param(3);
  TCMallocInternalFree(TCMallocInternalMalloc(1));
  os.on_mprotect = on_mprotect; os.mprotect_fails = mprotect_fails;
  symbolic_clock = true; pool.Init(maxp, total); symbolic_clock = false;
  TCMalloc_Internal_SetGuardedSamplingInterval(0);
  verif_assert(pool.TrySample(8, std::align_val_t{8}, Length(1), trace(1, 8)).status == Status::NoAvailableSlots, "the pool serves before it is activated");
  pool.AllowAllocations();
  int ok = 0;
  for (int op = 0; op < ops; ++op) {
    int what = verif_choice(nlive ? 2 : 1, "op");
    if (what == 0) {
      size_t n = verif_range("n", verif_param(4), verif_param(5));
      if (verif_param(8)) n = verif_concretize(n);
      static const size_t kA[] = {1, 8, 16, 64, 4096, 8192};
      size_t align = verif_param(9) ? kA[verif_choice(6, "align")] : 8;
      refuse = verif_param(7) ? verif_choice(2, "refuse") : false;
      const bool large = verif_param(7) ? verif_choice(2, "large") : false;
      auto r = pool.TrySample(n, std::align_val_t{align}, Length(large ? 2 : 1), trace(depth_of(op), n));
      if (large) { verif_assert(r.status == Status::LargerThanOnePage && r.alloc == nullptr, "an allocation beyond one page was guarded"); continue; }
      if (nlive == maxp) { verif_assert(r.status == Status::NoAvailableSlots && r.alloc == nullptr, "more pages are in use than allowed"); verif_reach("full"); refuse = false; continue; }
      if (refuse && n > 0) { verif_assert(r.status == Status::MProtectFailed && r.alloc == nullptr, "an inaccessible page was handed out"); verif_reach("refused"); }
      else {
        verif_assert(r.status == Status::Guarded && r.alloc != nullptr, "a free slot was not used");
        ++ok;
        uintptr_t a = (uintptr_t)r.alloc, page = verif_concretize(a & ~(kPg - 1));
        verif_assert(a % align == 0, "a guarded allocation is misaligned");
        verif_assert(a + n <= page + kPg, "a guarded allocation leaves its page");
        verif_assert(GetMemoryTag(r.alloc) == MemoryTag::kSampled, "a guarded allocation carries the wrong tag");
        int i = find_slot(page);
        if (i < 0) { verif_assert(nslots < total, "more slots than configured"); i = nslots++; slots[i] = Slot{}; }
        verif_assert(slots[i].state != 1, "one page was handed out twice");
        for (int j = 0; j < nslots; ++j) if (j != i && slots[j].state) verif_assert(slots[j].page + 2 * kPg <= page || page + 2 * kPg <= slots[j].page, "no guard page between two slots");
        slots[i] = {page, (char*)r.alloc, n, align, 1, depth_of(op)};
        ++nlive;
        verif_assert(pool.GetRequestedSize(r.alloc) == n, "the requested size is recorded wrongly");
        verif_assert(!verif_is_mapped((void*)(page - 1), 1) && !verif_is_mapped((void*)(page + kPg), 1), "a guard page is accessible");
        if (n) { slots[i].p[0] = 1; slots[i].p[n - 1] = 2; }
      }
      refuse = false;
    } else {
      int i = verif_choice(nslots, "which");
      if (slots[i].state != 1) verif_end_path();
      pool.Deallocate(slots[i].p);
      slots[i].state = 2; --nlive;
      verif_assert(!verif_is_mapped((void*)slots[i].page, 1) && !verif_is_mapped((void*)(slots[i].page + kPg - 1), 1), "a released guarded page is accessible");
    }
    verif_assert(pool.GetNumAvailablePages() == (size_t)(maxp - nlive), "the number of available pages is wrong");
    verif_assert(pool.successful_allocations() == (size_t)ok, "the number of guarded allocations is wrong");
  }
  if (nslots) check_slot(slots[verif_choice(nslots, "check")]);
  verif_reach("done");
}
// Guarded sampling never exceeds the configured rate, and is not refused for
// its rate when well below it.
static void mode_rate() {
  TCMallocInternalFree(TCMallocInternalMalloc(1));
  os.on_mprotect = on_mprotect;
  pool.Init(4, 8); pool.AllowAllocations();
  TCMalloc_Internal_SetGuardedSamplingInterval(0);
  const int done = 1 + verif_choice(3, "guarded_before");
  for (int i = 0; i < done; ++i) { auto r = pool.TrySample(8, std::align_val_t{8}, Length(1), trace(1 + i, 8)); verif_assert(r.alloc != nullptr, "a free slot was not used"); }
  int64_t gi = verif_range("guarded_interval", 1, int64_t{1} << 40), pi = verif_param(1);
  int64_t sampled = verif_range("sampled", done, 1 << 20);
  TCMalloc_Internal_SetProfileSamplingInterval(pi);
  TCMalloc_Internal_SetGuardedSamplingInterval(gi);
  tc_globals.total_sampled_count_.Add(sampled - tc_globals.total_sampled_count_.value());
  auto r = pool.TrySample(8, std::align_val_t{8}, Length(1), trace(7, 8));
  if (r.status == Status::Guarded) { verif_assert(done * gi <= sampled * pi, "guarded sampling exceeds its rate"); verif_reach("guarded"); }
  else { verif_assert(r.status == Status::RateLimited, "guarded sampling was refused for no reason"); verif_assert((done * gi + pi) * 11 >= sampled * pi * 10, "guarded sampling was refused well below its rate"); verif_reach("limited"); }
  TCMalloc_Internal_SetGuardedSamplingInterval(-(int64_t)verif_range("off", 1, 1 << 20));
  verif_assert(pool.TrySample(8, std::align_val_t{8}, Length(1), trace(9, 8)).status == Status::Disabled, "a negative interval does not switch guarded sampling off");
}
// A call stack that a live guarded allocation covers is skipped while half the
// pool is in use, and not once it is released and forgotten.
static void mode_filter() {
  TCMallocInternalFree(TCMallocInternalMalloc(1));
  os.on_mprotect = on_mprotect;
  pool.Init(3, 6); pool.AllowAllocations();
  TCMalloc_Internal_SetGuardedSamplingInterval(0);
  const int d = 1 + verif_choice(3, "depth"), other = d + 1 + verif_choice(2, "other");
  int64_t sampled = verif_range("sampled", 4, 1 << 20), gi = verif_range("interval", 1, 4096);
  TCMalloc_Internal_SetProfileSamplingInterval(4096);
  auto get = [&](int depth) { auto r = pool.TrySample(8, std::align_val_t{8}, Length(1), trace(depth, 8)); verif_assert((r.alloc != nullptr) == (r.status == Status::Guarded), "an allocation that is not guarded, or the reverse"); return r; };
  auto r = get(d);
  verif_assert(r.alloc != nullptr, "a free slot was not used");
  const int extra = verif_choice(3, "extra");       // others come and go
  for (int i = 0; i < extra; ++i) { auto q = get(other + i); verif_assert(q.alloc != nullptr, "a free slot was not used"); pool.Deallocate(q.alloc); }
  const bool kept = verif_choice(2, "kept");
  if (!kept) pool.Deallocate(r.alloc);
  pool.Reset();
  verif_assert(pool.successful_allocations() == 0 && tc_globals.total_sampled_count_.value() == 0, "counts survive a reset");
  auto o = get(other);
  verif_assert(o.alloc != nullptr, "a free slot was not used");
  TCMalloc_Internal_SetGuardedSamplingInterval(gi);
  tc_globals.total_sampled_count_.Add(sampled);
  auto q = get(d);
  if (kept) { verif_assert(q.status == Status::Filtered, "a call stack that is covered was guarded again although more than half the pool is in use"); verif_reach("covered"); }
  else { verif_assert(q.status == Status::Guarded, "a call stack that is no longer covered was refused"); verif_reach("uncovered"); }
}
#include <new>
void harness_main() {
  verif_map((void*)0x200000000000, 1 << 16);
  pool_ = new ((void*)0x200000000000) GuardedPageAllocator;
  if (verif_param(0) == 0) mode_history(); else if (verif_param(0) == 1) mode_rate(); else mode_filter(); }
