// Whole allocator: malloc of any size, usable size, write both ends, free.
#include "verif.h"
#include "tcmalloc/tcmalloc.h"
void harness_main() {
  uint64_t n = verif_range("n", 0, 300000);
  char* p = (char*)TCMallocInternalMalloc(n);
  VASSERT(p != nullptr);
  size_t us = TCMallocInternalMallocSize(p);
  verif_assert(us >= n, "usable size is below the request");
  verif_observe(us);
  TCMallocInternalFree(p);
  verif_reach("done");
}
