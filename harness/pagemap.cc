// The page map: symbolic pages anywhere in the address space.
#include <new>
#include "tcmalloc/pagemap.h"
#include "tcmalloc/pages.h"
#include "tcmalloc/span.h"
#include "verif.h"
using namespace tcmalloc::tcmalloc_internal;
static const int kBits = kAddressBits - kPageShift;
static const uint64_t kPages = uint64_t{1} << kBits;
static int allocs, fail_at = -1;
alignas(64) static char arena[4 << 20]; static size_t used;
static void* Alloc(size_t n) {
  if (allocs++ == fail_at) return nullptr;
  n = (n + 63) & ~size_t{63};
  verif_assert(used + n <= sizeof arena, "the page map asked for far too much memory");
  void* p = arena + used; used += n;
  for (size_t i = 0; i < n; i += 8) *(uint64_t*)((char*)p + i) = 0xa5a5a5a5a5a5a5a5ull;   // not zeroed
  return p;
}
static PageMap3<kBits, Alloc> map;
static Span* span_at(int i) { return (Span*)(uintptr_t)(0x7f0000001000ull + 64 * i); }
void harness_main() {
  const int mode = verif_param(0);
  // a page near one of several boundaries of the tree, or at its end
  static const uint64_t kBase[] = {0, (uint64_t{1} << 12) - 4, (uint64_t{1} << 24) - 4, (uint64_t{1} << 33) + 4090, kPages - 4100};
  const uint64_t width = verif_param(2);
  uint64_t base = kBase[verif_param(1)];
  auto page = [&](const char* n) { return base + verif_range(n, 0, width - 1); };
  if (mode == 0) {
    // nothing is there before Ensure; afterwards exactly what was set
    uint64_t any = verif_u64("any");
    verif_assert(map.get(any) == nullptr && map.sizeclass(any) == 0 && !map.has_leaf(any), "an empty map is not empty");
    auto e = map.get_existing_with_sizeclass<true>(any);
    verif_assert(e.first == nullptr && e.second == 0, "an empty map is not empty");
    uint64_t start = page("start"), n = verif_range("len", 1, verif_param(3));
    verif_assume(start + n <= kPages);
    verif_assert(map.Ensure(start, n), "covering a range failed although memory was there");
    uint64_t k = verif_range("k", base, base + width + verif_param(3));
    verif_assume(k >= start && k < start + n);
    verif_assert(map.has_leaf(k), "a covered page has no leaf");
    verif_assert(map.get(k) == nullptr && map.sizeclass(k) == 0 && map.get_hugepage(k) == nullptr, "a fresh page is not empty");
    uint8_t sc = verif_u8("sc");
    map.set(k, span_at(1));
    verif_assert(map.get(k) == span_at(1) && map.sizeclass(k) == 0, "a page does not read back as set");
    map.set_with_sizeclass(k, span_at(2), sc);
    uint64_t j = verif_range("j", base, base + width + verif_param(3));
    verif_assume(j >= start && j < start + n);
    auto r = map.get_existing_with_sizeclass<true>(j), r2 = map.get_existing_with_sizeclass<false>(j);
    if (j == k) {
      verif_assert(map.get(j) == span_at(2) && map.get_existing(j) == span_at(2) && map.sizeclass(j) == sc && r.first == span_at(2) && r.second == sc && r2 == r, "a page does not read back as set");
      verif_reach("same");
    } else {
      verif_assert(map.get(j) == nullptr && map.sizeclass(j) == 0 && r.first == nullptr && r.second == 0 && r2 == r, "setting one page changed another");
      verif_reach("other");
    }
    map.clear_sizeclass(k);
    verif_assert(map.sizeclass(k) == 0 && map.get(k) == span_at(2), "clearing a size class did something else");
    uint64_t beyond = verif_range("beyond", kPages, ~0ull);
    verif_assert(map.get(beyond) == nullptr && map.sizeclass(beyond) == 0 && !map.has_leaf(beyond) && map.get_existing_with_sizeclass<true>(beyond).first == nullptr, "a page beyond the address space is mapped");
    verif_assert(!map.Ensure(kPages - 1, 2), "a range beyond the address space was covered");
    verif_reach("done");
  } else if (mode == 1) {
    // enumeration finds exactly the pages that were set, in order
    verif_assert(map.Ensure(base, width), "covering a range failed although memory was there");
    uint64_t a = page("a"), b = page("b");
    verif_assume(a < b);
    map.set(a, span_at(1)); map.set(b, span_at(2));
    uint64_t from = page("from");
    auto n = map.get_next_set_page(from);
    if (from < a) verif_assert(n.has_value() && *n == a, "the next page set was not found");
    else if (from < b) verif_assert(n.has_value() && *n == b, "the next page set was not found");
    else verif_assert(!n.has_value(), "a page was found that was never set");
    verif_reach("done");
  } else if (mode == 2) {
    // per-hugepage pointers
    verif_assert(map.Ensure(base, width), "covering a range failed although memory was there");
    uint64_t a = page("a"), b = page("b");
    void* v = (void*)0x1230; 
    map.set_hugepage(a, v);
    const int sh = kHugePageShift - kPageShift;
    verif_assert(map.get_hugepage(b) == ((a >> sh) == (b >> sh) ? v : nullptr), "a hugepage pointer does not belong to exactly its hugepage");
    verif_assert(map.get(b) == nullptr && map.sizeclass(b) == 0, "a hugepage pointer changed a page");
    verif_reach("done");
  } else if (mode == 3) {
    // memory for the tree runs out
    fail_at = verif_choice(4, "fail");
    uint64_t start = page("start"), n = verif_range("len", 1, verif_param(3));
    verif_assume(start + n <= kPages);
    bool ok = map.Ensure(start, n);
    int made = allocs;
    verif_assert(ok == (made <= fail_at), "covering a range reported something else than what happened");
    fail_at = -1;
    verif_assert(map.Ensure(start, n), "covering a range failed for good");
    uint64_t k = verif_range("k", base, base + width + verif_param(3));
    verif_assume(k >= start && k < start + n);
    verif_assert(map.has_leaf(k) && map.get(k) == nullptr && map.sizeclass(k) == 0, "a covered page is missing or not empty");
    allocs = 0;
    verif_assert(map.Ensure(start, n) && allocs == 0, "covering a covered range took memory");
    verif_reach("done");
  }
}
