// The machine as the kernel's files describe it: CPU lists, shared caches,
// NUMA nodes.
//  P0 mode: 0 well-formed lists, 1 arbitrary bytes, 2 possible CPUs,
//           3 shared caches, 4 NUMA nodes
#include <cerrno>
#include <cstdarg>
#include "tcmalloc/internal/cache_topology.h"
#include "tcmalloc/internal/numa.h"
#include "tcmalloc/internal/percpu.h"
#include "tcmalloc/internal/sysinfo.h"
#include "rseq_model.h"
using namespace tcmalloc::tcmalloc_internal;
static char text[64]; static int len, off;
static int chunk, eintr;
static const char* env_value; static bool env_on;
struct File { char t[24]; int n; } files[8]; static int nfiles, pos[8];
static const char* kPossible = "0-1\n"; static int g_off; static bool model_possible;
namespace tcmalloc::tcmalloc_internal { const char* thread_safe_getenv(const char* n) { return env_on && n[9] == 'N' ? env_value : nullptr; } }
extern "C" {
// "...%zu..." is all the code under test formats
int snprintf(char* b, size_t n, const char* f, ...) noexcept {
  va_list ap; va_start(ap, f);
  size_t k = 0;
  for (; *f && k + 1 < n; ++f) {
    if (*f != '%') { b[k++] = *f; continue; }
    ++f; while (*f == 'z' || *f == 'l') ++f;
    verif_assert(*f == 'u' || *f == 'd', "an unexpected format");
    size_t v = va_arg(ap, size_t);
    if (v >= 10) b[k++] = '0' + v / 10 % 10;
    b[k++] = '0' + v % 10;
  }
  b[k] = 0;
  va_end(ap);
  return (int)k;
}
static int number_in(const char* p, const char* before) {
  const char* q = p;
  for (; *q; ++q) { const char *x = q, *w = before; while (*w && *x == *w) ++x, ++w; if (!*w) { int v = 0; verif_assert(*x >= '0' && *x <= '9', "a file name without a number"); while (*x >= '0' && *x <= '9') v = v * 10 + (*x++ - '0'); return v; } }
  return -1;
}
int open(const char* p, int, ...) {
  int c = number_in(p, "cpu/cpu");
  if (c < 0) c = number_in(p, "node/node");
  if (c < 0) { g_off = 0; return 3; }                // .../cpu/possible
  if (c >= nfiles) { errno = ENOENT; return -1; }
  pos[c] = 0;
  return 10 + c;
}
ssize_t read(int fd, void* p, size_t n) {
  if (fd == 3) {
    int k = 0;
    if (model_possible) { while (off < len && (size_t)k < n && k < chunk) ((char*)p)[k++] = text[off++]; return k; }
    while (kPossible[g_off] && (size_t)k < n) ((char*)p)[k++] = kPossible[g_off++];
    return k;
  }
  int c = fd - 10, k = 0;
  while (pos[c] < files[c].n && (size_t)k < n && k < chunk) ((char*)p)[k++] = files[c].t[pos[c]++];
  return k;
}
}
static ssize_t read_text(char* b, size_t n) {
  ssize_t k = 0;
  while (off < len && (size_t)k < n && k < chunk) b[k++] = text[off++];
  return k;
}
// appends a symbolic number of the given number of digits
static uint32_t number(int digits) {
  uint32_t v = 0;
  for (int i = 0; i < digits; ++i) { uint32_t d = verif_range("digit", i == 0 && digits > 1 ? 1 : 0, 9); if (verif_param(0) == 2 && verif_param(3)) d = verif_concretize(d); text[len++] = '0' + d; v = v * 10 + d; }
  return v;
}
static struct Item { uint32_t a, b; } items[4]; static int nitems;
static void well_formed(int max_items, int max_digits) {
  nitems = 1 + verif_choice(max_items, "items");
  for (int i = 0; i < nitems; ++i) {
    if (i) text[len++] = ',';
    items[i].a = items[i].b = number(1 + verif_choice(max_digits, "digits"));
    if (verif_choice(2, "range")) {
      text[len++] = '-';
      items[i].b = number(1 + verif_choice(max_digits, "digits"));
      verif_assume(items[i].a <= items[i].b && items[i].b <= items[i].a + 2);
    }
  }
  if (verif_choice(2, "newline")) text[len++] = '\n';
  static const int kChunks[] = {1, 2, 3, 16};
  chunk = kChunks[verif_choice(4, "chunk")];
}
static bool named(uint32_t q) { bool r = false; for (int i = 0; i < nitems; ++i) r |= items[i].a <= q && q <= items[i].b; return r; }
static bool all_supported() { bool r = true; for (int i = 0; i < nitems; ++i) r &= items[i].b < (uint32_t)kMaxCpus; return r; }
static void put_list(File& f, const int* in, int group, int n) {    // members of a group as the kernel prints them
  f.n = 0;
  for (int c = 0; c < n; ++c) {
    if (in[c] != group || (c && in[c - 1] == group)) continue;
    int e = c; while (e + 1 < n && in[e + 1] == group) ++e;
    if (f.n) f.t[f.n++] = ',';
    f.t[f.n++] = '0' + c;
    if (e > c) { f.t[f.n++] = '-'; f.t[f.n++] = '0' + e; }
  }
  f.t[f.n++] = '\n';
}
static NumaTopology<2, 10> numa;
void harness_main() {
  switch (verif_param(0)) {
    case 0: {
      well_formed(verif_param(1), verif_param(2));
      auto r = ParseCpulist(read_text);
      verif_assert(r.has_value() == all_supported(), "a CPU list is rejected although valid, or accepted although it names an unsupported CPU");
      if (!r.has_value()) { verif_reach("rejected"); return; }
      uint32_t q = verif_range("cpu", 0, kMaxCpus - 1);
      verif_assert(r->IsSet(q) == named(q), "a CPU list is read wrongly");
      verif_reach("accepted");
      break;
    }
    case 1: {
      len = verif_param(1);
      for (int i = 0; i < len; ++i) text[i] = i < verif_param(3) ? '0' + (i % 2 && i > 12) : verif_u8("byte");
      chunk = verif_param(2);
      int calls = 0, fail_at = verif_choice(4, "fail_at");
      auto r = ParseCpulist([&](char* b, size_t n) -> ssize_t {
        verif_assert(calls < 40, "reading never ends");
        if (calls++ == fail_at - 1) { errno = EIO; return -1; }
        return read_text(b, n);
      });
      if (fail_at && calls >= fail_at) verif_assert(!r.has_value(), "a read error was ignored");
      // what cannot be part of a list is not accepted
      bool junk = false;
      for (int i = 0; i < len; ++i) junk |= (text[i] >= '.' && text[i] < '0') || text[i] > '9' || (text[i] > ' ' && text[i] < '+') || text[i] < 0;
      if (junk) verif_assert(!r.has_value(), "garbage was accepted as a CPU list");
      verif_reach(r.has_value() ? "accepted" : "rejected");
      break;
    }
    case 2: {
      well_formed(verif_param(1), verif_param(2));
      model_possible = true;
      auto r = sysinfo_internal::NumPossibleCPUsNoCache();
      verif_assert(r.has_value() == all_supported(), "possible CPUs are rejected although valid, or accepted although too many");
      if (!r.has_value()) return;
      uint32_t want = 0;
      for (int i = 0; i < nitems; ++i) want = items[i].b + 1 > want ? items[i].b + 1 : want;
      verif_assert((uint32_t)*r == want, "the number of possible CPUs is not the highest one plus one");
      verif_reach("done");
      break;
    }
    case 3: {
      const int n = verif_param(1);
      static const char* kP[] = {"0\n", "0-1\n", "0-2\n", "0-3\n", "0-4\n"};
      kPossible = kP[n - 1];
      int g[8];
      for (int c = 0; c < n; ++c) g[c] = (int)verif_concretize(verif_range("group", 0, 2));
      for (int c = 0; c < n; ++c) put_list(files[c], g, g[c], n);
      chunk = verif_param(2);
      nfiles = verif_choice(2, "no_files") ? 0 : n;      // a machine without such a cache, or an offline CPU
      static CacheTopology t;
      t.Init();
      if (!nfiles) { verif_assert(t.l3_count() == 0, "caches were found where none are described"); return; }
      unsigned distinct = 0; bool seen[3] = {};
      for (int c = 0; c < n; ++c) { distinct += !seen[g[c]]; seen[g[c]] = true; }
      verif_assert(t.l3_count() == distinct, "the number of shared caches is wrong");
      for (int c = 0; c < n; ++c) for (int d = 0; d < n; ++d) {
        verif_assert(t.GetL3FromCpuId(c) < distinct, "a CPU is assigned to no cache");
        verif_assert((t.GetL3FromCpuId(c) == t.GetL3FromCpuId(d)) == (g[c] == g[d]), "two CPUs are said to share a cache although they do not, or the reverse");
      }
      verif_reach("done");
      break;
    }
    case 4: {
      rseqm::g.on = verif_param(2);
      const int n = 4, nodes = (int)verif_concretize(verif_range("nodes", 1, 5));
      static const char* kE[] = {nullptr, "no-binding", "advisory-binding", "1", "strict-binding", "0"};
      const int e = verif_choice(6, "env");
      env_on = true; env_value = kE[e];
      kPossible = "0-3\n";
      int g[8];
      for (int c = 0; c < n; ++c) g[c] = (int)verif_concretize(verif_range("node", 0, nodes - 1));
      for (int d = 0; d < nodes; ++d) { put_list(files[d], g, d, n); if (files[d].n == 1 && verif_param(1) < 2) files[d].n = 1; }
      nfiles = nodes; chunk = verif_param(1);
      if (chunk == 1) numa.Init();
      else numa.InitForTest([](size_t node) { return open(node == 0 ? "node/node0" : node == 1 ? "node/node1" : node == 2 ? "node/node2" : node == 3 ? "node/node3" : node == 4 ? "node/node4" : "node/node5", 0); });
      if (!verif_param(2)) { verif_assert(!numa.numa_aware() && numa.active_partitions() == 1, "NUMA awareness is on although the current CPU is unknown"); return; }
      bool any = false;
      for (int c = 0; c < n; ++c) any |= g[c] % 2 == 1;
      const bool enabled = e >= 1 && e <= 4;
      verif_assert(numa.numa_aware() == (enabled && any) && numa.active_partitions() == (size_t)(enabled && any ? 2 : 1), "NUMA awareness is on although not asked for or of no use, or the reverse");
      verif_assert(numa.num_nodes() == (size_t)nodes, "the number of nodes is wrong");
      if (enabled) verif_assert(numa.bind_mode() == (e == 1 ? NumaBindMode::kNone : e == 4 ? NumaBindMode::kStrict : NumaBindMode::kAdvisory), "the binding mode is not the one asked for");
      for (int c = 0; c < n; ++c) {
        verif_assert(numa.GetCpuPartition(c) == (size_t)g[c] % 2 && numa.GetCpuScaledPartition(c) == (size_t)g[c] % 2 * 10, "a CPU is assigned to the wrong partition");
      }
      verif_assert(numa.GetCpuPartition(4) == 0 && numa.GetCpuPartition(subtle::percpu::kCpuIdUninitialized) == 0 && numa.GetCpuPartition(subtle::percpu::kCpuIdUnsupported) == 0, "an unknown CPU is not in partition 0");
      uint64_t m[2] = {1, 0};
      for (int d = 0; d < nodes; ++d) m[d % 2] |= uint64_t{1} << d;
      verif_assert(numa.GetPartitionNodes(0) == m[0] && numa.GetPartitionNodes(1) == m[1], "the nodes of a partition are wrong");
      for (int c = 0; c < n; ++c) {
        rseqm::migrate(c);
        verif_assert(numa.GetCurrentPartition() == (numa.numa_aware() ? (size_t)g[c] % 2 : 0) && numa.GetCurrentScaledPartition() == numa.GetCurrentPartition() * 10, "the current partition is wrong");
      }
      verif_reach(numa.numa_aware() ? "aware" : "unaware");
      break;
    }
  }
}
