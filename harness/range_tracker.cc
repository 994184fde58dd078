// RangeTracker: histories of FindAndMark/Mark/Unmark with arbitrary lengths
// against a plain occupancy array.
#include "tcmalloc/internal/range_tracker.h"
#include "verif.h"
using namespace tcmalloc::tcmalloc_internal;
#ifndef NBITS
#define NBITS 8
#endif
static constexpr size_t N = NBITS;
static RangeTracker<N> t;
static bool occ[N];
static size_t longest() {
  size_t best = 0, run = 0;
  for (size_t i = 0; i < N; ++i) { run = occ[i] ? 0 : run + 1; if (run > best) best = run; }
  return best;
}
static void verify(size_t used, size_t allocs) {
  verif_assert(t.used() == used, "used() is wrong");
  verif_assert(t.allocs() == allocs, "allocs() is wrong");
  verif_assert(t.longest_free() == longest(), "longest_free() is not the longest free run");
  Bitmap<N> b = t.bits();
  for (size_t i = 0; i < N; ++i) verif_assert(b.GetBit(i) == occ[i], "bits() is wrong");
}
void harness_main() {
  const int steps = verif_param(0);
  struct A { size_t i, n; } live[8];
  size_t nlive = 0, used = 0;
  verify(0, 0);
  for (int s = 0; s < steps; ++s) {
    uint64_t op = verif_choice(3, "op");
    if (op == 0) {
      if (longest() == 0) verif_end_path();
      size_t n = verif_concretize(verif_range("n", 1, N));
      if (n > longest()) verif_end_path();
      // best fit: the shortest free run that is long enough
      size_t bestlen = N + 1;
      for (size_t i = 0; i < N;) {
        if (occ[i]) { ++i; continue; }
        size_t j = i; while (j < N && !occ[j]) ++j;
        if (j - i >= n && j - i < bestlen) bestlen = j - i;
        i = j;
      }
      size_t i = t.FindAndMark(n);
      verif_assert(i + n <= N, "FindAndMark returned a range past the end");
      size_t lo = i, hi = i + n;
      for (size_t k = i; k < i + n; ++k) { verif_assert(!occ[k], "FindAndMark returned an occupied range"); }
      while (lo > 0 && !occ[lo - 1]) --lo;
      while (hi < N && !occ[hi]) ++hi;
      verif_assert(hi - lo == bestlen, "FindAndMark did not choose the best fit");
      for (size_t k = i; k < i + n; ++k) occ[k] = true;
      live[nlive++] = {i, n}; used += n;
    } else if (op == 1) {
      size_t i = verif_concretize(verif_range("i", 0, N - 1)), n = verif_concretize(verif_range("n", 1, N));
      if (i + n > N) verif_end_path();
      for (size_t k = i; k < i + n; ++k) if (occ[k]) verif_end_path();
      t.Mark(i, n);
      for (size_t k = i; k < i + n; ++k) occ[k] = true;
      live[nlive++] = {i, n}; used += n;
    } else {
      if (!nlive) verif_end_path();
      size_t w = verif_choice(nlive, "which");
      t.Unmark(live[w].i, live[w].n);
      for (size_t k = 0; k < live[w].n; ++k) occ[live[w].i + k] = false;
      used -= live[w].n;
      live[w] = live[--nlive];
    }
    verify(used, nlive);
  }
  size_t st = verif_choice(N + 1, "start"), idx, len, e = st;
  while (e < N && occ[e]) ++e;
  bool r = t.NextFreeRange(st, &idx, &len);
  verif_assert(r == (e < N), "NextFreeRange missed or invented a range");
  if (r) {
    size_t f = e; while (f < N && !occ[f]) ++f;
    verif_assert(idx == e && len == f - e, "NextFreeRange is wrong");
  }
  t.Clear();
  for (auto& o : occ) o = false;
  verify(0, 0);
  verif_reach("done");
}
