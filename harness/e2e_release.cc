// Returning memory to the system through the public interface: live memory
// keeps its contents, the statistics move by what was returned, and memory
// handed out afterwards is usable.
#include "os_model.h"
#include "e2e.h"
using namespace tcmalloc::tcmalloc_internal;
extern "C" size_t MallocExtension_Internal_ReleaseMemoryToSystem(size_t bytes);
extern "C" bool MallocExtension_Internal_GetNumericProperty(const char* name_data, size_t name_size, size_t* value);
static struct { char* p; size_t n; } live[8]; static int nlive;
static size_t released_now; static uint64_t fails; static int calls;
static int on_madvise(void* a, size_t len, int advice) {
  if (advice == 9) return 22;
  if (advice != 4 && advice != 8) return 0;
  uintptr_t s = (uintptr_t)a, e = s + len;
  for (int i = 0; i < nlive; ++i) {
    uintptr_t x = (uintptr_t)live[i].p;
    verif_assert(e <= x || x + live[i].n <= s, "memory of a live allocation was returned to the system");
  }
  if (fails >> calls++ & 1) return 12;
  released_now += len;
  return 0;
}
static size_t prop(const char* n) { size_t v = 0, l = 0; while (n[l]) ++l; verif_assert(MallocExtension_Internal_GetNumericProperty(n, l, &v), "a documented property is unknown"); return v; }
void harness_main() {
  const int k = verif_param(0);
  TCMallocInternalFree(TCMallocInternalMalloc(1));
  os.on_madvise = on_madvise;
  for (int i = 0; i < k; ++i) {
    size_t n = verif_range("n", verif_param(1), verif_param(2));
    if (verif_param(4)) n = verif_concretize(n);
    char* p = (char*)TCMallocInternalMalloc(n);
    verif_assert(p != nullptr, "an allocation failed");
    live[nlive++] = {p, n};
  }
  size_t at = verif_choice(2, "end") ? verif_param(1) - 1 - verif_range("at", 0, 63) : verif_range("at", 0, 63);
  for (int i = 0; i < nlive; ++i) live[i].p[at] = (char)(0x51 + i);
  uint64_t drop = verif_choice(1u << k, "drop");
  for (int i = 0, j = 0; i < k; ++i) {
    if (drop >> i & 1) { auto x = live[j]; live[j] = live[--nlive]; if (0) (void)x; TCMallocInternalFree(x.p); for (int t = j; t + 1 < nlive; ++t) { auto y = live[t]; live[t] = live[t + 1]; live[t + 1] = y; } }
    else ++j;
  }
  char want_byte[8]; for (int i = 0; i < nlive; ++i) want_byte[i] = live[i].p[at];
  size_t unm = prop("tcmalloc.pageheap_unmapped_bytes"), fre = prop("tcmalloc.pageheap_free_bytes"), heap = prop("generic.heap_size");
  fails = verif_param(5) ? verif_range("fails", 0, 3) : 0;
  calls = 0; released_now = 0;
  size_t want = verif_range("want", 0, verif_param(3));
  size_t got = MallocExtension_Internal_ReleaseMemoryToSystem(want);
  verif_observe(got);
  for (int i = 0; i < nlive; ++i) verif_assert(live[i].p[at] == want_byte[i], "releasing memory changed a live allocation");
  size_t moved = prop("tcmalloc.pageheap_unmapped_bytes") - unm;
  verif_assert(moved == released_now, "unmapped memory does not grow by what was returned to the system");
  verif_assert(prop("tcmalloc.pageheap_free_bytes") + moved >= fre, "free memory shrank by more than what was returned");
  verif_assert(got <= want, "more memory is reported as released than was asked for");
  verif_assert(prop("generic.heap_size") + moved == heap, "the heap size does not shrink by what was returned");
  fails = 0;
  // memory returned to the system comes back usable
  size_t m = verif_param(2);
  char* p = (char*)TCMallocInternalMalloc(m);
  verif_assert(p != nullptr, "an allocation failed");
  for (int i = 0; i < nlive; ++i) verif_assert(p + m <= live[i].p || live[i].p + live[i].n <= p, "a new allocation overlaps a live one");
  p[0] = 1; p[m - 1] = 2;
  verif_assert(p[0] == 1 + (m == 1) && p[m - 1] == 2, "memory that came back from the system is not usable");
  for (int i = 0; i < nlive; ++i) verif_assert(live[i].p[at] == want_byte[i], "a live allocation changed");
  TCMallocInternalFree(p);
  while (nlive) TCMallocInternalFree(live[--nlive].p);
  MallocExtension_Internal_ReleaseMemoryToSystem(~size_t{0} >> 1);
  verif_reach("done");
}
