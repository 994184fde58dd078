// Whole allocator, one entry point: an allocation of any size and alignment
// within the bounds is aligned, large enough, does not overlap another live
// one, and can be released through every matching deallocation function.
#include <cerrno>
#include "e2e.h"
#include "os_model.h"
// Guard pages: protected memory is not accessible.
static void protect(void* p, size_t n, int prot) {
  if (prot & 2) { for (size_t i = 0; i < n; i += 4096) if (!verif_is_mapped((char*)p + i, 4096)) verif_map((char*)p + i, 4096); }
  else if (prot == 0) verif_unmap(p, n);
}
void harness_main() {
  const int sampled = verif_param(5);         // 0: never, 1: every allocation, 2: every allocation, guarded
  TCMalloc_Internal_SetGuardedSamplingInterval(-1);
  if (sampled) sample_everything(); else TCMalloc_Internal_SetProfileSamplingInterval(0);
  TCMalloc_Internal_SetGuardedSamplingInterval(sampled == 2 ? 0 : -1);
  if (sampled == 2) { os.on_mprotect = protect; activate_guarded(); }
  const int entry = verif_param(0);
  const uint64_t lo = verif_param(1), hi = verif_param(2);
  size_t n = verif_range("n", lo, hi);
  size_t align = 1;
  if (takes_align(entry)) {
    static const int kAll[] = {0, 3, 4, 6, 7, 9, 12, 13, 14, 1, 2, 5, 8, 10, 11, 15, 18, 20, 21, 22};
    uint64_t l2 = kAll[verif_choice(verif_param(3), "align")];
    align = size_t{1} << l2;
    if (needs_ptr_align(entry) && align < sizeof(void*)) verif_end_path();
  }
  void* other = TCMallocInternalMalloc(24);
  uint8_t* keep = (uint8_t*)other;
  for (int i = 0; i < 24; ++i) keep[i] = 0xa0 + i;
  size_t cap = 0;
  uint8_t* p = (uint8_t*)allocate(entry, n, align, &cap);
  verif_assert(p != nullptr, "an ordinary request failed");
  if (sampled) verif_assert(is_sampled(p), "an allocation was not sampled");
  if (sampled == 2 && n <= 4096 && align <= 4096) { verif_assert(is_guarded(p), "an allocation was not guarded"); verif_reach("guarded"); }
  size_t us = TCMallocInternalMallocSize(p);
  if (entry == E_PVALLOC) verif_assert(us >= ((n + 4095) & ~4095ull), "pvalloc did not round up to a page");
  verif_assert(us >= n, "usable size is below the request");
  if (cap) verif_assert(cap >= n && cap <= us, "the returned capacity is not usable");
  verif_assert(((uintptr_t)p & (align - 1)) == 0, "the result is not aligned as asked");
  verif_assert(((uintptr_t)p & (min_align(entry, n) - 1)) == 0, "the result is not aligned for its size");
  verif_assert(p + us <= keep || keep + 24 <= p, "two live allocations overlap");
  if (!takes_align(entry) && entry != E_VALLOC && entry != E_PVALLOC) {
    verif_assert(sampled == 2 || us == nallocx(n, 0) || is_malloc_like(entry), "nallocx disagrees with the allocation");
    verif_assert(TCMalloc_Internal_GetEstimatedAllocatedSize(n) == nallocx(n, 0), "GetEstimatedAllocatedSize disagrees with nallocx");
  }
  if (us) {                                   // every usable byte is writable
    verif_assert(verif_is_mapped(p, us), "usable bytes are not backed by writable memory");
    p[0] = 1; p[us - 1] = 2;
  }
  for (int i = 0; i < 24; ++i) verif_assert(keep[i] == 0xa0 + i, "writing one allocation changed another");
  release(entry, p, n, align, cap);
  // what was released can be handed out again, but never what is still live
  uint8_t* q = (uint8_t*)allocate(entry, n, align, nullptr);
  verif_assert(q != nullptr, "an ordinary request failed after a release");
  verif_assert(q + us <= keep || keep + 24 <= q, "two live allocations overlap");
  uint8_t* r = (uint8_t*)allocate(entry, n, align, nullptr);
  verif_assert(r + us <= q || q + us <= r, "two live allocations overlap");
  verif_assert(r + us <= keep || keep + 24 <= r, "two live allocations overlap");
  release_plain(entry, q, align);
  release_plain(entry, r, align);
  TCMallocInternalFree(other);
  verif_reach("done");
}
