// Whole allocator: calloc hands out zeros even from used memory, realloc keeps
// the contents and both keep every other live allocation intact.
#include <cerrno>
#include <cstring>
#include "e2e.h"
static uint8_t* keep;
static void check_keep() { for (int i = 0; i < 64; ++i) verif_assert(keep[i] == 0x40 + i, "another live allocation changed"); }
static void apart(void* p, size_t n) { verif_assert((uint8_t*)p + n <= keep || keep + 64 <= (uint8_t*)p, "two live allocations overlap"); }
void harness_main() {
  TCMalloc_Internal_SetProfileSamplingInterval(0);
  const int mode = verif_param(0);
  const size_t lo = verif_param(1), hi = verif_param(2);
  keep = (uint8_t*)TCMallocInternalMalloc(64);
  for (int i = 0; i < 64; ++i) keep[i] = 0x40 + i;
  if (mode == 0) {                            // calloc from recycled memory
    size_t n = verif_range("n", lo, hi), m = verif_param(3);
    if (verif_param(5)) n = verif_concretize(n);   // each count on its own
    size_t total = n * m;
    uint8_t* d = (uint8_t*)TCMallocInternalMalloc(total);
    size_t us = TCMallocInternalMallocSize(d);
    memset(d, 0xff, us);
    TCMallocInternalFree(d);
    uint8_t* p = (uint8_t*)(verif_param(4) ? TCMallocInternalCalloc(n, m) : TCMallocInternalCalloc(m, n));
    verif_assert(p != nullptr, "an ordinary request failed");
    if (p == d) verif_reach("recycled");
    apart(p, TCMallocInternalMallocSize(p));
    size_t i = verif_range("i", 0, 40);
    if (verif_choice(2, "end")) i = total - 1 - i;
    if (i < total) verif_assert(p[i] == 0, "calloc returned memory that is not zero");
    TCMallocInternalFree(p);
  } else if (mode == 1) {                     // realloc
    size_t a = verif_range("from", lo, hi), b = verif_range("to", verif_param(3), verif_param(4));
    if (verif_param(5) & 1) a = verif_concretize(a);   // each old size on its own
    if (verif_param(5) & 2) b = verif_concretize(b);
    uint8_t* p = (uint8_t*)TCMallocInternalMalloc(a);
    const size_t least = a < b ? a : b;
    uint8_t v0 = verif_u8("v"), v1 = v0 ^ 1;
    const int where = verif_choice(3, "where");    // which byte is followed
    const size_t i = where == 0 ? 0 : where == 1 ? least / 2 : least - 1;
    if (least) p[i] = v0;
    if (i + 1 < a) p[i + 1] = v1;
    size_t usp = TCMallocInternalMallocSize(p);
    uint8_t* q = (uint8_t*)TCMallocInternalRealloc(p, b);
    if (b == 0) {
      verif_assert(q == nullptr, "realloc to nothing returned a block");
      void* r = TCMallocInternalMalloc(a);
      apart(r, a);
      TCMallocInternalFree(r);
    } else {
      verif_assert(q != nullptr, "an ordinary request failed");
      size_t us = TCMallocInternalMallocSize(q);
      verif_assert(us >= b, "the result of realloc is too small");
      verif_assert(((uintptr_t)q & 15) == 0, "the result of realloc is misaligned");
      verif_assert(verif_is_mapped(q, us), "the result of realloc is not backed by memory");
      apart(q, us);
      if (least) verif_assert(q[i] == v0, "realloc lost the contents");
      if (i + 1 < least) verif_assert(q[i + 1] == v1, "realloc lost the contents");
      if (q != p) {
        verif_reach("moved");
        verif_assert(q + us <= p || p + usp <= q, "realloc returned part of the old block");
        uint8_t* r = (uint8_t*)TCMallocInternalMalloc(a);
        verif_assert(r + usp <= q || q + us <= r, "the block was handed out twice");
        TCMallocInternalFree(r);
      } else {
        verif_reach("in_place");
        uint8_t* r = (uint8_t*)TCMallocInternalMalloc(a);
        verif_assert(r + usp <= q || q + us <= r, "the block was handed out twice");
        TCMallocInternalFree(r);
      }
      if (verif_choice(2, "how")) TCMallocInternalFree(q); else TCMallocInternalFreeSized(q, b);
    }
  }
  check_keep();
  TCMallocInternalFree(keep);
  verif_reach("done");
}
