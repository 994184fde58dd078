// Every request is mapped to a size class that can hold it with the alignment
// asked for, and to the smallest such class. Tables, policies and alignments
// are parameters; sizes are symbolic.
#include "tcmalloc/sizemap.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/tcmalloc_policy.h"
#include "verif.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
typedef FixedNumaPartitionPolicy Numa;
typedef TCMallocPolicy<CppOomPolicy, DefaultAlignPolicy, AllocationAccessHotPolicy, InvokeHooksPolicy, NonSizeReturningPolicy, Numa, SecurityPartitionPolicy> PCpp;
typedef TCMallocPolicy<MallocOomPolicy, MallocAlignPolicy, AllocationAccessHotPolicy, InvokeHooksPolicy, NonSizeReturningPolicy, Numa, SecurityPartitionPolicy> PMalloc;
typedef TCMallocPolicy<CppOomPolicy, DefaultAlignPolicy, AllocationAccessColdPolicy, InvokeHooksPolicy, NonSizeReturningPolicy, Numa, SecurityPartitionPolicy> PCold;
static SizeMap m;
static SizeMap::SizeMapResult map(int pol, size_t part, size_t align, size_t n) {
  DefaultAlignPolicy da; MallocAlignPolicy ma;
  PCpp cpp(da, Numa(0), SecurityPartitionPolicy(part));
  PMalloc mal(ma, Numa(0), SecurityPartitionPolicy(part));
  PCold cold(da, Numa(0), SecurityPartitionPolicy(part));
  switch (pol) {
    case 0: return m.GetSizeClass(cpp, n);
    case 1: return m.GetSizeClass(mal, n);
    case 2: return m.GetSizeClass(cold, n);
    case 3: return m.GetSizeClass(cpp.AlignAs(align), n);
    case 4: return m.GetSizeClass(mal.AlignAs(align), n);
    default: return m.GetSizeClass(cold.AlignAs(align), n);
  }
}
void harness_main() {
  int table = verif_param(0), pol = verif_param(1), part = verif_param(2), lalign = verif_param(3);
  const SizeClasses* t = table == 0 ? &kSizeClasses : table == 1 ? &kExperimentalPow2SizeClasses : table == 2 ? &kLegacySizeClasses : &kReuseRelaxedBelow64SizeClasses;
  verif_assert(m.Init(t->classes), "a built-in size class table was rejected");
  size_t align = pol == 1 ? 16 : pol == 0 || pol == 2 ? 1 : size_t{1} << lalign;
  // the table itself
  for (size_t c = 1; c < kNumClasses; ++c) {
    size_t sz = m.class_to_size(c);
    if (!sz) continue;
    verif_assert(sz % 8 == 0, "a class size is not a multiple of the base alignment");
    verif_assert(m.class_to_pages(c).in_bytes() >= sz, "a span cannot hold one object of its class");
    verif_assert(m.class_to_pages(c).in_bytes() / sz < 65536, "too many objects per span");
    verif_assert(m.num_objects_to_move(c) >= 2 && m.num_objects_to_move(c) <= kMaxObjectsToMove, "batch size out of range");
  }
  size_t n = verif_u64("n"), n2 = verif_u64("n2");
  SizeMap::SizeMapResult r = map(pol, part, align, n);
  if (!r.is_small) {
    verif_assert(n > kMaxSize || align > kPageSize, "a small request was not given a size class");
    verif_reach("large");
    return;
  }
  verif_assert(n <= kMaxSize && align <= kPageSize, "a large request was given a size class");
  verif_assert(r.size_class > 0 && r.size_class < kNumClasses, "size class out of range");
  verif_assert(IsExpandedSizeClass(r.size_class) == (kHasExpandedClasses && ((pol == 2 || pol == 5) && n > 0)), "cold and hot classes are mixed up");
  size_t sz = m.class_to_size(r.size_class);
  verif_assert(sz >= n, "the class is smaller than the request");
  verif_assert(sz <= kMaxSize, "the class is larger than the largest class");
  if (n >= align) verif_assert(sz % align == 0, "objects of the class are not aligned");
  verif_assert(m.class_to_pages(r.size_class).in_bytes() >= sz, "a span cannot hold one object");
  // minimal among the classes of this partition
  size_t first = r.size_class / kNumBaseClasses * kNumBaseClasses;
  if (r.size_class > first + 1) {
    size_t below = m.class_to_size(r.size_class - 1);
    if (align <= 8) verif_assert(below < n || below == 0, "a smaller class would have fitted");
  }
  // monotone: a size between n and the class's size maps to the same class
  if (verif_param(4)) {
    verif_assume(n2 >= n && n2 <= sz && n > 0);
    SizeMap::SizeMapResult r2 = map(pol, part, align, n2);
    verif_assert(r2.is_small && r2.size_class == r.size_class, "a size within the class's capacity maps to another class");
  }
  verif_reach("small");
}
