// What the allocator reports about itself, against what the program did.
#include "os_model.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/span.h"
#include "e2e.h"
using namespace tcmalloc::tcmalloc_internal;
extern "C" size_t MallocExtension_Internal_ReleaseMemoryToSystem(size_t bytes);
extern "C" size_t MallocExtension_Internal_ReleaseCpuMemory(int cpu);
extern "C" bool MallocExtension_Internal_GetNumericProperty(const char* name_data, size_t name_size, size_t* value);
extern "C" void MallocExtension_Internal_GetProperties(tcmalloc::MallocExtension::PropertyMap* result);
extern "C" void MallocExtension_Internal_SetMemoryLimit(size_t limit, tcmalloc::MallocExtension::LimitKind kind);
extern "C" void MallocExtension_Internal_SetMaxTotalThreadCacheBytes(int64_t value);
extern "C" tcmalloc::MallocExtension::Ownership MallocExtension_Internal_GetOwnership(const void* ptr);
static size_t prop(const char* n) { size_t v = ~size_t{0}, l = 0; while (n[l]) ++l; verif_assert(MallocExtension_Internal_GetNumericProperty(n, l, &v), "a documented property is unknown"); return v; }
static struct { char* p; size_t n, a; int e; } live[8]; static int nlive;
static size_t base, released, released_bg, released_soft, given, seen, other, frag0, caches, soft = ~size_t{0}, hard = ~size_t{0}, max_thread;
static bool hits;
static int on_madvise(void* a, size_t len, int advice) {
  if (advice == 9) return 22;
  if (advice == 4 || advice == 8) given += len;
  return 0;
}
static bool sampled;
// a sampled allocation has a span of its own
static size_t in_use() {
  size_t s = 0;
  for (int i = 0; i < nlive; ++i) s += sampled ? tc_globals.pagemap().GetDescriptor(PageIdContaining(live[i].p))->bytes_in_span() : TCMallocInternalMallocSize(live[i].p);
  return s;
}
static void check() {
  const size_t app = prop("generic.current_allocated_bytes"), heap = prop("generic.heap_size"), fre = prop("tcmalloc.pageheap_free_bytes"), unm = prop("tcmalloc.pageheap_unmapped_bytes");
  const size_t central = prop("tcmalloc.central_cache_free"), transfer = prop("tcmalloc.transfer_cache_free"), thread = prop("tcmalloc.current_total_thread_cache_bytes");
  const size_t cpu = prop("tcmalloc.cpu_free"), sharded = prop("tcmalloc.sharded_transfer_cache_free");
  const size_t v = prop("generic.virtual_memory_used"), ph = prop("generic.physical_memory_used");
  verif_assert((app == base + in_use()) & (heap == app + central + transfer + thread + cpu + sharded + fre), "the bytes in use are not the sum of the live allocations, or heap size is not what is in use plus what is cached or free");
  // two names of one number
  bool ok = prop("generic.bytes_in_use_by_app") == app;
  ok &= prop("tcmalloc.page_heap_free") == fre; ok &= prop("tcmalloc.page_heap_unmapped") == unm; ok &= prop("tcmalloc.thread_cache_free") == thread;
  ok &= prop("tcmalloc.slack_bytes") == fre + tc_globals.page_allocator().stats().unmapped_bytes;   // slack is free plus unmapped
  ok &= prop("tcmalloc.local_bytes") == cpu + sharded + thread;          // local: what the caches near the threads hold
  ok &= ph == v - unm;                                                   // physical: virtual less what was given back
  ok &= prop("tcmalloc.required_bytes") == ph - fre;
  ok &= prop("tcmalloc.external_fragmentation_bytes") == ph - app;
  ok &= prop("generic.peak_memory_usage") >= heap;
  // what was given back unasked: for the soft limit, or because a hugepage that was partly released became free
  released_soft = prop("tcmalloc.num_released_soft_limit_exceeded_bytes"); other += given - seen; seen = given;
  ok &= (released_soft <= other) & ((soft != ~size_t{0}) | (released_soft == 0)); hits |= released_soft != 0;
  ok &= prop("tcmalloc.num_released_total_bytes") == released + released_bg + released_soft; ok &= prop("tcmalloc.num_released_release_memory_to_system_bytes") == released;
  ok &= prop("tcmalloc.num_released_process_background_actions_bytes") == released_bg; ok &= prop("tcmalloc.num_released_hard_limit_exceeded_bytes") == 0;
  ok &= prop("tcmalloc.desired_usage_limit_bytes") == soft; ok &= prop("tcmalloc.hard_usage_limit_bytes") == hard;
  ok &= !hits | (prop("tcmalloc.soft_limit_hits") != 0); ok &= prop("tcmalloc.hard_limit_hits") == 0; ok &= prop("tcmalloc.successful_shrinks_after_hard_limit_hit") == 0;
  ok &= prop("tcmalloc.successful_shrinks_after_soft_limit_hit") <= prop("tcmalloc.soft_limit_hits");
  ok &= prop("tcmalloc.max_total_thread_cache_bytes") == max_thread;
  ok &= prop("tcmalloc.per_cpu_caches_active") == tc_globals.CpuCacheActive(); ok &= prop("tcmalloc.thread_cache_count") == caches;
  {
    const BackingStats b = tc_globals.page_allocator().stats();
    const auto a = tc_globals.arena().stats();
    size_t meta;
    { PageHeapSpinLockHolder l; meta = tc_globals.metadata_bytes(); }
    ok &= v == b.system_bytes + meta + a.bytes_unallocated + a.bytes_unavailable + a.bytes_nonresident;
  }
  verif_assert(ok, "the numbers the allocator reports contradict each other");
  for (int i = 0; i < nlive; ++i) {
    verif_assert(TCMallocInternalMallocSize(live[i].p) >= live[i].n, "an allocation is reported smaller than it is");
    verif_assert(MallocExtension_Internal_GetOwnership(live[i].p) == tcmalloc::MallocExtension::Ownership::kOwned, "a live allocation is not recognised as owned");
  }
  int on_stack = 0;
  verif_assert(MallocExtension_Internal_GetOwnership(&on_stack) == tcmalloc::MallocExtension::Ownership::kNotOwned, "foreign memory is reported as owned");
}
// all numbers at once are the same as one by one
static void check_map() {
  tcmalloc::MallocExtension::PropertyMap m;
  m["stale"].value = 1;
  MallocExtension_Internal_GetProperties(&m);
  static const char* const kSame[] = {"generic.current_allocated_bytes", "generic.bytes_in_use_by_app", "generic.heap_size", "tcmalloc.page_heap_free", "tcmalloc.pageheap_free_bytes", "tcmalloc.thread_cache_count",
    "tcmalloc.central_cache_free", "tcmalloc.transfer_cache_free", "tcmalloc.cpu_free", "tcmalloc.sharded_transfer_cache_free", "tcmalloc.per_cpu_caches_active", "tcmalloc.current_total_thread_cache_bytes", "tcmalloc.thread_cache_free", "tcmalloc.local_bytes",
    "tcmalloc.max_total_thread_cache_bytes", "tcmalloc.page_heap_unmapped", "tcmalloc.sampled_internal_fragmentation", "tcmalloc.slack_bytes", "tcmalloc.hard_usage_limit_bytes", "tcmalloc.desired_usage_limit_bytes", "tcmalloc.soft_limit_hits", "tcmalloc.hard_limit_hits",
    "tcmalloc.successful_shrinks_after_soft_limit_hit", "tcmalloc.successful_shrinks_after_hard_limit_hit", "tcmalloc.num_released_total_bytes", "tcmalloc.num_released_release_memory_to_system_bytes", "tcmalloc.num_released_process_background_actions_bytes",
    "tcmalloc.num_released_soft_limit_exceeded_bytes", "tcmalloc.num_released_hard_limit_exceeded_bytes", "tcmalloc.security_partitioning_active", "tcmalloc.metadata_bytes"};
  bool ok = m.find("stale") == m.end();
  for (const char* n : kSame) { auto i = m.find(n); verif_assert(i != m.end(), "a documented property is missing"); ok &= i->second.value == prop(n); }
  size_t meta;
  { PageHeapSpinLockHolder l; meta = tc_globals.metadata_bytes(); }
  const size_t less = meta - m["tcmalloc.metadata_bytes"].value;   // the table leaves out metadata that is not resident
  ok &= m["generic.virtual_memory_used"].value == prop("generic.virtual_memory_used") - less; ok &= m["generic.physical_memory_used"].value == prop("generic.physical_memory_used") - less;
  ok &= m["tcmalloc.required_bytes"].value == prop("tcmalloc.required_bytes") - less; ok &= m["tcmalloc.external_fragmentation_bytes"].value == prop("tcmalloc.external_fragmentation_bytes") - less;
  verif_assert(ok, "the table of all properties differs from the properties one by one");
}
void harness_main() {
  const int ops = verif_param(0);
  sampled = verif_param(3);
  TCMalloc_Internal_SetGuardedSamplingInterval(-1);
  if (sampled) sample_everything(); else TCMalloc_Internal_SetProfileSamplingInterval(0);
  TCMallocInternalFree(TCMallocInternalMalloc(1));
  os.on_madvise = on_madvise;
  base = prop("generic.current_allocated_bytes");
  released = prop("tcmalloc.num_released_total_bytes");
  seen = given;
  caches = prop("tcmalloc.thread_cache_count");
  frag0 = prop("tcmalloc.sampled_internal_fragmentation");
  max_thread = prop("tcmalloc.max_total_thread_cache_bytes");
  size_t nothing = 5;
  verif_assert(!MallocExtension_Internal_GetNumericProperty("tcmalloc.no_such_thing", 22, &nothing) && nothing == 5, "an unknown property is answered");
  check();
  for (int k = 0; k < ops; ++k) {
    switch (verif_choice(verif_param(4), "op")) {
      case 0: {
        static const int kE[] = {E_MALLOC, E_MEMALIGN, E_NEW_COLD, E_CALLOC};
        const int e = kE[verif_choice(verif_param(5), "entry")];
        size_t n = verif_range("n", verif_param(1), verif_param(2)), a = e == E_MEMALIGN ? 64 : 1;
        if (e == E_CALLOC) n = verif_concretize(n);
        char* p = (char*)allocate(e, n, a, nullptr);
        verif_assert(p != nullptr, "an ordinary request failed");
        live[nlive++] = {p, n, a, e};
        break;
      }
      case 1: {
        if (!nlive) verif_end_path();
        int i = verif_choice(nlive, "which");
        auto l = live[i]; live[i] = live[--nlive];
        release_plain(l.e, l.p, l.a);
        break;
      }
      case 2: {
        size_t want = verif_range("want", 1, 1 << 22), g0 = given, un0 = prop("tcmalloc.pageheap_unmapped_bytes");
        MallocExtension_Internal_ReleaseMemoryToSystem(want);
        released += given - g0; seen = given;
        verif_assert(prop("tcmalloc.pageheap_unmapped_bytes") - un0 == given - g0, "unmapped memory does not grow by what was returned");
        if (given != g0) verif_reach("released");
        break;
      }
      case 4: {      // a soft limit around what is in use
        soft = prop("generic.physical_memory_used") + verif_choice(3, "limit") * (1 << 21) - (1 << 21);
        MallocExtension_Internal_SetMemoryLimit(soft, tcmalloc::MallocExtension::LimitKind::kSoft);
        break;
      }
      case 5: {
        size_t want = verif_range("want", 1, 600), g0 = given;
        { PageHeapSpinLockHolder l; tc_globals.page_allocator().ReleaseAtLeastNPages(Length(want), PageReleaseReason::kProcessBackgroundActions); }
        released_bg += given - g0; seen = given;
        break;
      }
      case 6: {
        hard = verif_range("hard", size_t{1} << 33, size_t{1} << 40);
        MallocExtension_Internal_SetMemoryLimit(hard, tcmalloc::MallocExtension::LimitKind::kHard);
        if (hard < soft) soft = hard;
        max_thread = verif_concretize(verif_range("max_thread", 1, 2)) << 20;
        MallocExtension_Internal_SetMaxTotalThreadCacheBytes(max_thread);
        break;
      }
      case 3: {
        size_t c0 = prop("tcmalloc.cpu_free");
        size_t got = 0;
        for (int c = 0; c < 2; ++c) got += MallocExtension_Internal_ReleaseCpuMemory(c);
        verif_assert(got == c0, "flushing the per-CPU caches reports other bytes than they held");
        verif_assert(prop("tcmalloc.cpu_free") == 0, "a flushed per-CPU cache still holds memory");
        break;
      }
    }
    check();
  }
  while (nlive) { auto l = live[--nlive]; release_plain(l.e, l.p, l.a); }
  check();
  check_map();
  if (!sampled) verif_assert(prop("tcmalloc.sampled_internal_fragmentation") == frag0, "fragmentation is reported for allocations that are gone");
  verif_reach("done");
}
