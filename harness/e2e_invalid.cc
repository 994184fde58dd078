// Whole allocator: misuse that the documentation promises to detect. The
// process has to die at the offending call (or at the access, for guarded
// allocations); valid use before it must not.
#include "e2e.h"
#include "os_model.h"
static const size_t kPage = 8192;
static void protect(void* p, size_t n, int prot) {
  if (prot & 2) { for (size_t i = 0; i < n; i += 4096) if (!verif_is_mapped((char*)p + i, 4096)) verif_map((char*)p + i, 4096); }
  else if (prot == 0) verif_unmap(p, n);
}
// Any deallocation function; sz is used by the sized ones.
static void any_free(void* p, size_t sz) {
  switch (verif_choice(8, "dealloc")) {
    case 0: return TCMallocInternalFree(p);
    case 1: return TCMallocInternalDelete(p);
    case 2: return TCMallocInternalDeleteArray(p);
    case 3: return TCMallocInternalDeleteSized(p, sz);
    case 4: return TCMallocInternalFreeSized(p, sz);
    case 5: return TCMallocInternalDeleteArraySized(p, sz);
    case 6: return TCMallocInternalSdallocx(p, sz, 0);
    case 7: return TCMallocInternalDeleteNothrow(p, std::nothrow);
  }
}
static void any_unsized_free(void* p) {
  switch (verif_choice(4, "dealloc")) {
    case 0: return TCMallocInternalFree(p);
    case 1: return TCMallocInternalDelete(p);
    case 2: return TCMallocInternalDeleteArray(p);
    case 3: return TCMallocInternalDeleteNothrow(p, std::nothrow);
  }
}
static void sized_free(bool malloc_like, void* p, size_t sz) {
  if (malloc_like) { if (verif_choice(2, "dealloc")) TCMallocInternalFreeSized(p, sz); else TCMallocInternalSdallocx(p, sz, 0); }
  else { if (verif_choice(2, "dealloc")) TCMallocInternalDeleteSized(p, sz); else TCMallocInternalDeleteArraySized(p, sz); }
}
void harness_main() {
  const int mode = verif_param(0), sampled = verif_param(3);
  TCMalloc_Internal_SetGuardedSamplingInterval(-1);
  if (sampled) sample_everything(); else TCMalloc_Internal_SetProfileSamplingInterval(0);
  TCMalloc_Internal_SetGuardedSamplingInterval(sampled == 2 ? 0 : -1);
  if (sampled == 2) { os.on_mprotect = protect; activate_guarded(); }
  size_t n = verif_range("n", verif_param(1), verif_param(2));
  if (mode == 8) n = verif_concretize(n);
  bool ml = mode == 7 || mode == 8 ? false : verif_choice(2, "malloc");
  if (mode == 8) for (int k = verif_choice(6, "before"); k > 0; k--) TCMallocInternalNew(1);   // picks another slot, so another placement
  uint8_t* other = mode == 8 ? nullptr : (uint8_t*)TCMallocInternalNew(n);
  uint8_t* p = ml ? (uint8_t*)TCMallocInternalMalloc(n) : (uint8_t*)TCMallocInternalNew(n);
  const size_t us = TCMallocInternalMallocSize(p);
  if (sampled && n <= 262144) verif_assert(is_sampled(p), "an allocation was not sampled");
  verif_reach("allocated");
  if (sampled == 2) {
    if (!is_guarded(p)) { verif_reach("not guarded"); TCMallocInternalDelete(p); return; }
    verif_reach("guarded");
  }
  if (mode == 0) {                            // bits no address of the allocator has
    uint64_t bad = verif_u64("bits");
    verif_assume((bad & ((uint64_t{1} << 48) - 1)) == 0 && bad != 0);
    verif_expect_crash(1);
    any_free((void*)((uintptr_t)p | bad), n);
    verif_assert(false, "a pointer with impossible high bits was accepted");
  } else if (mode == 1) {                     // misaligned
    size_t off = verif_range("off", 1, 7);
    verif_expect_crash(1);
    any_free(p + off, n);
    verif_assert(false, "a misaligned pointer was accepted");
  } else if (mode == 2) {                     // inside a large allocation
    size_t off = verif_range("off", 1, verif_param(4));
    verif_assume(off < n);
    verif_expect_crash(1);
    any_free(p + off, n);
    verif_assert(false, "a pointer into the middle of an allocation was accepted");
  } else if (mode == 3) {                     // freed twice
    if (ml) TCMallocInternalFree(p); else TCMallocInternalDelete(p);
    if (verif_choice(2, "between")) TCMallocInternalFree(TCMallocInternalMalloc(24));
    verif_expect_crash(1);
    any_free(p, n);
    verif_assert(false, "a second release of the same allocation was accepted");
  } else if (mode == 4) {                     // large, sized, wrong size
    size_t sz = verif_u64("sz");
    verif_assume(sz > 262144 && (sz > us || sz + kPage <= us));
    verif_expect_crash(1);
    sized_free(ml, p, sz);
    verif_assert(false, "a size that cannot belong to the allocation was accepted");
  } else if (mode == 5) {                     // sampled, sized, any wrong size
    size_t sz = verif_u64("sz");
    verif_assume(sz != n);
    if (n > 262144) verif_assume(sz > 262144);    // smaller ones are caught only later, if at all
    verif_expect_crash(1);
    sized_free(ml, p, sz);
    verif_assert(false, "a sampled allocation was released with another size");
  } else if (mode == 6) {                     // sampled, released by the other family
    verif_expect_crash(1);
    if (ml) { if (verif_choice(2, "sized")) TCMallocInternalDeleteSized(p, n); else TCMallocInternalDelete(p); }
    else { if (verif_choice(2, "sized")) TCMallocInternalFreeSized(p, n); else TCMallocInternalFree(p); }
    verif_assert(false, "a sampled allocation was released by the wrong family");
  } else if (mode == 7) {                     // sampled, aligned new, wrong alignment
    static const size_t kA[] = {8, 16, 32, 64, 4096};
    size_t a = kA[verif_choice(5, "align")], b = size_t{1} << verif_choice(20, "other_align");
    void* q = TCMallocInternalNewAligned(n, (std::align_val_t)a);
    verif_assume(a != b);
    verif_expect_crash(1);
    switch (verif_choice(4, "dealloc")) {
      case 0: TCMallocInternalDeleteAligned(q, (std::align_val_t)b); break;
      case 1: TCMallocInternalDeleteSizedAligned(q, n, (std::align_val_t)b); break;
      case 2: TCMallocInternalDelete(q); break;
      case 3: TCMallocInternalDeleteSized(q, n); break;
    }
    verif_assert(false, "a sampled allocation was released with another alignment");
  } else if (mode == 8) {                     // guarded: out of bounds and use after release
    size_t off = verif_range("off", 0, verif_param(4));
    if (verif_choice(2, "after_release")) {
      TCMallocInternalDelete(p);
      verif_assume(off < n);
      verif_assert(!verif_is_mapped(p + off, 1), "a released guarded allocation is still accessible");
    } else {
      verif_assert(us == n, "a guarded allocation reports spare bytes");
      verif_assert(!verif_is_mapped(p - 1, 1) || !verif_is_mapped(p + us + 15, 1), "neither side of a guarded allocation is guarded");
      uintptr_t page = (uintptr_t)p & ~(kPage - 1);
      verif_assert(!verif_is_mapped((void*)(page - 1), 1) && !verif_is_mapped((void*)(page + kPage), 1), "a guarded allocation has no guard pages");
      verif_assert((uintptr_t)p + n <= page + kPage, "a guarded allocation leaves its page");
      if ((uintptr_t)p != page && !verif_is_mapped(p + us + 15, 1) && verif_is_mapped(p + n + off, 1) && n) {
        // right-aligned: the padding before the guard page is watched
        uint8_t v = verif_u8("v");
        verif_assume(v != p[n + off]);
        p[n + off] = v;
        verif_expect_crash(1);
        if (verif_choice(2, "sized")) TCMallocInternalDeleteSized(p, n); else TCMallocInternalDelete(p);
        verif_assert(false, "a write past a guarded allocation went unnoticed");
      }
      TCMallocInternalDelete(p);
    }
  } else if (mode == 10) {                    // sampled, any entry point, size outside what it admits
    static const int kE[] = {E_NEW_ARRAY, E_CALLOC, E_ALIGNED_ALLOC, E_NEW_ALIGNED, E_NEW_COLD, E_SIZE_RETURNING, E_SIZE_RETURNING_ALIGNED, E_ALLOC_AT_LEAST, E_ALIGNED_ALLOC_AT_LEAST, E_REALLOC_NULL};
    int e = kE[verif_choice(10, "entry")];
    size_t a = takes_align(e) ? size_t{16} << verif_choice(3, "align") : 0, cap = 0;
    void* q = allocate(e, n, a, &cap);
    verif_assert(q != nullptr && (n > 262144 || is_sampled(q)), "an allocation was not sampled");
    if (cap < n) cap = n;
    size_t sz = verif_u64("sz");
    verif_assume(sz < n || sz > cap);
    if (n > 262144) verif_assume(sz > 262144);
    verif_expect_crash(1);
    if (e == E_NEW_ALIGNED || e == E_SIZE_RETURNING_ALIGNED) TCMallocInternalDeleteSizedAligned(q, sz, (std::align_val_t)a);
    else if (takes_align(e)) TCMallocInternalFreeAlignedSized(q, a, sz);
    else if (is_malloc_like(e)) TCMallocInternalFreeSized(q, sz);
    else TCMallocInternalDeleteSized(q, sz);
    verif_assert(false, "a sampled allocation was released with a size it does not admit");
  } else if (mode == 9) {                     // a pointer nothing was ever allocated at
    uintptr_t a = verif_u64("addr");
    verif_assume(a != 0 && a < (uintptr_t{1} << 48));
    verif_assume(a + 0x10000000 < (uintptr_t)p || a > (uintptr_t)p + 0x10000000);
    verif_assume((a & 0x7) == 0);
    verif_expect_crash(1);
    any_unsized_free((void*)a);
    verif_assert(false, "a foreign pointer was accepted");
  }
  verif_expect_crash(0);
  TCMallocInternalDelete(other);
  verif_reach("done");
}
