#pragma once
#include <new>
#include "tcmalloc/internal_malloc_extension.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/tcmalloc.h"
#include "verif.h"
#include "tcmalloc/internal/parameter_accessors.h"
extern "C" size_t nallocx(size_t size, int flags) noexcept;
#include "tcmalloc/internal/memory_tag.h"
#include "tcmalloc/static_vars.h"
#if TCMALLOC_INTERNAL_PERCPU_USE_RSEQ
#include "percpu_env.h"
#endif
// What activating guarded sampling does besides installing signal handlers.
static inline void activate_guarded() { tcmalloc::tcmalloc_internal::tc_globals.guardedpage_allocator().AllowAllocations(); }
static inline bool is_guarded(const void* p) { return tcmalloc::tcmalloc_internal::tc_globals.guardedpage_allocator().PointerIsMine(p); }
static inline bool is_sampled(const void* p) { return tcmalloc::tcmalloc_internal::IsSampledMemory(p); }
// Turns on sampling of every allocation: the new interval takes effect once
// the distance drawn under the old one is used up.
static inline void sample_everything() {
  TCMalloc_Internal_SetProfileSamplingInterval(1);
  TCMalloc_Internal_SetPeakSamplingHeapGrowthFraction(0);   // no peak snapshots
  bool s = false;
  for (int i = 0; i < 4096 && !s; ++i) { void* p = TCMallocInternalMalloc(100000); s = is_sampled(p); TCMallocInternalFree(p); }
  verif_assert(s, "sampling every allocation never sampled one");
}
enum { E_MALLOC, E_NEW, E_NEW_ARRAY, E_NEW_NOTHROW, E_CALLOC, E_MEMALIGN, E_ALIGNED_ALLOC, E_POSIX_MEMALIGN, E_NEW_ALIGNED,
       E_NEW_ALIGNED_NOTHROW, E_NEW_HOT, E_NEW_COLD, E_SIZE_RETURNING, E_SIZE_RETURNING_ALIGNED, E_VALLOC, E_PVALLOC,
       E_ALLOC_AT_LEAST, E_ALIGNED_ALLOC_AT_LEAST, E_REALLOC_NULL, E_REALLOCARRAY_NULL, E_NEW_ALIGNED_COLD, E_COUNT };
static inline bool takes_align(int e) {
  return e == E_MEMALIGN || e == E_ALIGNED_ALLOC || e == E_POSIX_MEMALIGN || e == E_NEW_ALIGNED || e == E_NEW_ALIGNED_NOTHROW ||
         e == E_SIZE_RETURNING_ALIGNED || e == E_ALIGNED_ALLOC_AT_LEAST || e == E_NEW_ALIGNED_COLD;
}
static inline bool needs_ptr_align(int e) { return e == E_POSIX_MEMALIGN; }
static inline bool is_malloc_like(int e) { return e == E_MALLOC || e == E_CALLOC || e == E_REALLOC_NULL || e == E_REALLOCARRAY_NULL || e == E_ALLOC_AT_LEAST; }
static inline size_t min_align(int e, size_t n) {
  if (e == E_VALLOC || e == E_PVALLOC) return 4096;
  if (takes_align(e)) return 1;
  if (is_malloc_like(e)) return 16;
  return n >= 16 ? 16 : 8;
}
static inline void* allocate(int e, size_t n, size_t a, size_t* cap) {
  switch (e) {
    case E_MALLOC: return TCMallocInternalMalloc(n);
    case E_NEW: return TCMallocInternalNew(n);
    case E_NEW_ARRAY: return TCMallocInternalNewArray(n);
    case E_NEW_NOTHROW: return TCMallocInternalNewNothrow(n, std::nothrow);
    case E_CALLOC: return TCMallocInternalCalloc(1, n);
    case E_MEMALIGN: return TCMallocInternalMemalign(a, n);
    case E_ALIGNED_ALLOC: return TCMallocInternalAlignedAlloc(a, n);
    case E_POSIX_MEMALIGN: { void* r = nullptr; return TCMallocInternalPosixMemalign(&r, a, n) ? nullptr : r; }
    case E_NEW_ALIGNED: return TCMallocInternalNewAligned(n, (std::align_val_t)a);
    case E_NEW_ALIGNED_NOTHROW: return TCMallocInternalNewAlignedNothrow(n, (std::align_val_t)a, std::nothrow);
    case E_NEW_HOT: return TCMallocInternalNewHotCold(n, tcmalloc::hot_cold_t{255});
    case E_NEW_COLD: return TCMallocInternalNewHotCold(n, tcmalloc::hot_cold_t{0});
    case E_SIZE_RETURNING: { auto r = TCMallocInternalSizeReturningNew(n); if (cap) *cap = r.n; return r.p; }
    case E_SIZE_RETURNING_ALIGNED: { auto r = TCMallocInternalSizeReturningNewAligned(n, (std::align_val_t)a); if (cap) *cap = r.n; return r.p; }
    case E_VALLOC: return TCMallocInternalValloc(n);
    case E_PVALLOC: return TCMallocInternalPvalloc(n);
    case E_ALLOC_AT_LEAST: { auto r = TCMallocInternalAllocAtLeast(n); if (cap) *cap = r.size; return r.ptr; }
    case E_ALIGNED_ALLOC_AT_LEAST: { auto r = TCMallocInternalAlignedAllocAtLeast(a, n); if (cap) *cap = r.size; return r.ptr; }
    case E_REALLOC_NULL: return TCMallocInternalRealloc(nullptr, n);
    case E_REALLOCARRAY_NULL: return TCMallocInternalReallocArray(nullptr, n, 1);
    case E_NEW_ALIGNED_COLD: return TCMallocInternalNewAlignedHotCold(n, (std::align_val_t)a, tcmalloc::hot_cold_t{0});
  }
  return nullptr;
}
// The plain release function of the same family as the allocation.
static inline void release_plain(int e, void* p, size_t a) {
  if (e == E_NEW_ALIGNED || e == E_NEW_ALIGNED_NOTHROW || e == E_NEW_ALIGNED_COLD || e == E_SIZE_RETURNING_ALIGNED) return TCMallocInternalDeleteAligned(p, (std::align_val_t)a);
  if (takes_align(e) || e == E_VALLOC || e == E_PVALLOC || is_malloc_like(e)) return TCMallocInternalFree(p);
  return TCMallocInternalDelete(p);
}
// Releases through any of the functions that match the allocation, with any
// size the contract admits.
static inline void release(int e, void* p, size_t n, size_t a, size_t cap) {
  size_t sz = n;
  if (cap) { if (verif_param(4)) { sz = verif_range("dsize", 0, ~0ull >> 1); verif_assume(sz >= n && sz <= cap); } else if (verif_choice(2, "dsize")) sz = cap; }
  if (takes_align(e)) {
    if (e == E_NEW_ALIGNED || e == E_NEW_ALIGNED_NOTHROW || e == E_NEW_ALIGNED_COLD || e == E_SIZE_RETURNING_ALIGNED) {
      switch (verif_choice(3, "dealloc")) {
        case 0: return TCMallocInternalDeleteAligned(p, (std::align_val_t)a);
        case 1: return TCMallocInternalDeleteSizedAligned(p, sz, (std::align_val_t)a);
        case 2: return TCMallocInternalDeleteArraySizedAligned(p, sz, (std::align_val_t)a);
      }
    }
    switch (verif_choice(3, "dealloc")) {
      case 0: return TCMallocInternalFree(p);
      case 1: return TCMallocInternalFreeAlignedSized(p, a, sz);
      case 2: { if (a == 1) return TCMallocInternalFree(p); int l = 0; while ((size_t{1} << l) < a) ++l; return TCMallocInternalSdallocx(p, sz, l); }
    }
  }
  if (e == E_VALLOC || e == E_PVALLOC) return TCMallocInternalFree(p);
  if (is_malloc_like(e)) {
    switch (verif_choice(2, "dealloc")) {
      case 0: return TCMallocInternalFree(p);
      case 1: return TCMallocInternalFreeSized(p, sz);
    }
  }
  switch (verif_choice(5, "dealloc")) {
    case 0: return TCMallocInternalDelete(p);
    case 1: return TCMallocInternalDeleteSized(p, sz);
    case 2: return TCMallocInternalDeleteArray(p);
    case 3: return TCMallocInternalDeleteArraySized(p, sz);
    case 4: return TCMallocInternalDeleteNothrow(p, std::nothrow);
  }
}
