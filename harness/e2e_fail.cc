// Whole allocator: requests that cannot be satisfied. They fail the way the
// entry point documents (null and errno, or death for plain operator new),
// leave every live allocation alone, and later requests still work.
#include <cerrno>
#include "e2e.h"
#include "os_model.h"
#include "tcmalloc/internal/memory_tag.h"
// Running out of memory for its own metadata ends the process by design.
static bool metadata(void* a) { return a && tcmalloc::tcmalloc_internal::GetMemoryTag(a) == tcmalloc::tcmalloc_internal::MemoryTag::kMetadata; }
static int mmap_left;
static bool fail_after(void* a, size_t len, int) { if (metadata(a)) return false; if (len > (size_t{1} << 40)) return true; return mmap_left-- <= 0; }
static bool fail_protect(void* a, size_t, int) { if (metadata(a)) return false; return mmap_left-- <= 0; }
static bool fail_big(void*, size_t len, int) { return len > (size_t{1} << 40); }
static bool dies(int e) { return e == E_NEW || e == E_NEW_ARRAY || e == E_NEW_ALIGNED || e == E_NEW_HOT || e == E_NEW_COLD || e == E_SIZE_RETURNING || e == E_SIZE_RETURNING_ALIGNED || e == E_NEW_ALIGNED_COLD; }
static bool sets_errno(int e) { return !dies(e) && e != E_NEW_NOTHROW && e != E_NEW_ALIGNED_NOTHROW && e != E_POSIX_MEMALIGN; }
static uint8_t* keep;
static void still_fine() {
  os.mmap_fails = fail_big; os.mprotect_fails = nullptr;
  for (int i = 0; i < 40; ++i) verif_assert(keep[i] == 0xa0 + i, "a failed request changed a live allocation");
  void* x = TCMallocInternalMalloc(40);
  void* y = TCMallocInternalMalloc(300000);
  verif_assert(x && y, "an ordinary request fails after a failed one");
  verif_assert((uint8_t*)x + 40 <= keep || keep + 40 <= (uint8_t*)x, "two live allocations overlap");
  verif_assert((uint8_t*)y + 300000 <= keep || keep + 40 <= (uint8_t*)y, "two live allocations overlap");
  *(uint8_t*)y = 1; ((uint8_t*)y)[299999] = 1;
  TCMallocInternalFree(x);
  TCMallocInternalFree(y);
  TCMallocInternalFree(keep);
}
void harness_main() {
  TCMalloc_Internal_SetProfileSamplingInterval(0);
  const int mode = verif_param(0), entry = verif_param(1);
  os.mmap_fails = fail_big;
  keep = (uint8_t*)TCMallocInternalMalloc(40);
  for (int i = 0; i < 40; ++i) keep[i] = 0xa0 + i;
  errno = 0;
  if (mode == 0) {                            // impossible sizes and alignments
    size_t n = verif_range("n", 0, ~size_t{0}), align = 1;
    if (takes_align(entry)) {
      uint64_t l2 = verif_choice(64, "align");
      align = size_t{1} << l2;
      if (needs_ptr_align(entry) && align < sizeof(void*)) verif_end_path();
      if (l2 < 47) verif_assume(n >= (size_t{1} << 47));
    } else verif_assume(n >= (size_t{1} << 47));
    if (dies(entry)) verif_expect_crash(1);
    size_t cap = 0;
    void* p = allocate(entry, n, align, &cap);
    verif_assert(p == nullptr, "an impossible request was granted");
    verif_assert(cap == 0, "a failed request reports a capacity");
    verif_assert(!dies(entry), "plain operator new returned null");
    if (sets_errno(entry)) verif_assert(errno == ENOMEM, "errno is not ENOMEM");
    still_fine();
  } else if (mode == 1) {                     // the system refuses memory
    size_t n = verif_range("n", verif_param(2), verif_param(3)), align = takes_align(entry) ? size_t{1} << verif_param(4) : 1;
    mmap_left = verif_choice(3, "grants");
    os.mmap_fails = fail_after;
    if (verif_choice(2, "commit")) os.mprotect_fails = fail_protect;
    if (dies(entry)) verif_expect_crash(1);
    void* p[8]; size_t us[8]; int got = 0;
    for (; got < verif_param(5); ++got) {
      p[got] = allocate(entry, n, align, nullptr);
      if (!p[got]) break;
      us[got] = TCMallocInternalMallocSize(p[got]);
      verif_assert(us[got] >= n && ((uintptr_t)p[got] & (align - 1)) == 0, "an allocation near exhaustion is too small or misaligned");
      verif_assert(verif_is_mapped(p[got], us[got]), "an allocation near exhaustion is not backed by memory");
      for (int i = 0; i < got; ++i) verif_assert((uint8_t*)p[i] + us[i] <= p[got] || (uint8_t*)p[got] + us[got] <= p[i], "two live allocations overlap near exhaustion");
      verif_assert((uint8_t*)p[got] + us[got] <= keep || keep + 40 <= (uint8_t*)p[got], "two live allocations overlap near exhaustion");
    }
    if (got < verif_param(5)) { verif_reach("refused"); if (sets_errno(entry)) verif_assert(errno == ENOMEM, "errno is not ENOMEM"); }
    verif_expect_crash(0);
    for (int i = 0; i < got; ++i) release_plain(entry, p[i], align);
    still_fine();
  } else if (mode == 2) {                     // alignments that are not powers of two
    size_t a = verif_u64("align"), n = verif_range("n", 0, 5000);
    verif_assume((a & (a - 1)) != 0 || a == 0);
    int which = verif_choice(3, "entry");
    if (which == 0) { verif_assert(TCMallocInternalAlignedAlloc(a, n) == nullptr && errno == EINVAL, "aligned_alloc accepted a bad alignment"); }
    else if (which == 1) { void* r = keep; verif_assert(TCMallocInternalPosixMemalign(&r, a, n) == EINVAL, "posix_memalign accepted a bad alignment"); verif_assert(r == keep, "posix_memalign wrote its result on failure"); }
    else { auto r = TCMallocInternalAlignedAllocAtLeast(a, n); verif_assert(r.ptr == nullptr && r.size == 0 && errno == EINVAL, "aligned_alloc_at_least accepted a bad alignment"); }
    still_fine();
  } else if (mode == 3) {                     // products that do not fit
    static const size_t kElem[] = {2, 3, 8, 24, 255, 4097, 65536, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 33) + 6, 1ull << 48, 1ull << 63, ~0ull, 1, 5, 7, 12, 16, 40, 100, 1000, 1ull << 31, (1ull << 40) + 3, (1ull << 56) - 8};
    size_t a = verif_u64("count"), b = kElem[verif_choice(verif_param(2), "elem")];
    __uint128_t prod = (__uint128_t)a * b;
    if (verif_param(3)) { size_t t = a; a = b; b = t; }
    verif_assume(prod >= ((__uint128_t)1 << 47));
    if (verif_param(4)) {                     // and whose low half is a chosen small size
      static const size_t kWrap[] = {0, 24, 1008, 300000, 8, 255, 65536, 2097152};
      verif_assume(a * b == kWrap[verif_choice(verif_param(4), "wrap")]);
    }
    void* p = entry == 0 ? TCMallocInternalCalloc(a, b) : entry == 1 ? TCMallocInternalReallocArray(nullptr, a, b) : TCMallocInternalReallocArray(keep, a, b);
    verif_assert(p == nullptr, "a product that does not fit was granted");
    verif_assert(errno == ENOMEM, "errno is not ENOMEM");
    still_fine();
  } else if (mode == 4) {                     // realloc that fails keeps the block
    size_t n1 = verif_range("n1", 0, verif_param(2)), n2 = verif_range("n2", size_t{1} << 47, ~size_t{0});
    uint8_t* p = (uint8_t*)TCMallocInternalMalloc(n1);
    size_t at = verif_range("at", 0, verif_param(2));
    verif_assume(at < n1);
    p[at] = 0x5c;
    void* q = TCMallocInternalRealloc(p, n2);
    verif_assert(q == nullptr && errno == ENOMEM, "an impossible realloc was granted");
    verif_assert(p[at] == 0x5c && TCMallocInternalMallocSize(p) >= n1, "a failed realloc changed the block");
    void* r = TCMallocInternalMalloc(n1);
    verif_assert(r != p, "a failed realloc freed the block");
    TCMallocInternalFree(r);
    TCMallocInternalFree(p);
    still_fine();
  }
  verif_reach("done");
}
