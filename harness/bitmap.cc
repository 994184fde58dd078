// Bitmap<N>: every operation against its pointwise meaning, on arbitrary
// contents. "For every bit" is a symbolic witness index.
#include <cstring>
#include "tcmalloc/internal/range_tracker.h"
#include "verif.h"
using namespace tcmalloc::tcmalloc_internal;
#ifndef NBITS
#define NBITS 130
#endif
static constexpr size_t N = NBITS;
using B = Bitmap<N>;
template <size_t M>
static bool at(const Bitmap<M>& b, size_t i) {      // reads the representation
  uint64_t w[(M + 63) / 64];
  memcpy(w, &b, sizeof w);
  return (w[i / 64] >> (i % 64)) & 1;
}
template <size_t M>
static void arbitrary(Bitmap<M>& b, const char* nm) {
  uint64_t w[(M + 63) / 64];
  verif_symbolic(w, sizeof w, nm);
  if (M % 64) w[M / 64] &= (uint64_t{1} << (M % 64)) - 1;
  memcpy((void*)&b, w, sizeof w);
}
static bool clean(const B& b) {
  uint64_t w[(N + 63) / 64];
  memcpy(w, &b, sizeof w);
  return N % 64 == 0 || (w[N / 64] >> (N % 64)) == 0;
}
void harness_main() {
  B b;
  arbitrary(b, "bits");
  const B old = b;
  size_t w = verif_range("w", 0, N - 1);            // the witness
  switch (verif_param(0)) {
    case 0: {                                       // single bits
      size_t i = verif_range("i", 0, N - 1);
      verif_assert(b.GetBit(i) == at(b, i), "GetBit");
      verif_assert(b.SetBit(i) == at(old, i), "SetBit returns the previous bit");
      verif_assert(at(b, w) == (w == i || at(old, w)), "SetBit sets that bit only");
      b = old;
      verif_assert(b.ClearBit(i) == at(old, i), "ClearBit returns the previous bit");
      verif_assert(at(b, w) == (w != i && at(old, w)), "ClearBit clears that bit only");
      break;
    }
    case 1: {                                       // ranges
      size_t i = verif_range("i", 0, N - 1);
      size_t n = verif_range("n", 1, N);
      verif_assume(i + n <= N);
      b.SetRange(i, n);
      verif_assert(at(b, w) == ((w >= i && w < i + n) || at(old, w)), "SetRange sets exactly its range");
      verif_assert(clean(b), "bits past the end stay clear");
      b = old;
      b.ClearRange(i, n);
      verif_assert(at(b, w) == (!(w >= i && w < i + n) && at(old, w)), "ClearRange clears exactly its range");
      break;
    }
    case 2: {                                       // counting: one or two set (or clear) bits anywhere, ranges cut near word edges
      size_t x = verif_range("x", 0, N - 1), y = verif_range("y", 0, N - 1);
      static const size_t cut[] = {0, 1, 17, 63, 64, 65, 127, 128, N - 1, N};
      size_t a = verif_choice(9, "from"), e = verif_choice(10, "to");
      if (e < a) verif_end_path();
      size_t i = cut[a], n = cut[e] - i;
      bool inv = verif_choice(2, "inverted"), two = verif_choice(2, "two");
      if (two) verif_assume(x / 64 < y / 64); else y = x;
      uint64_t v[(N + 63) / 64];
      for (size_t k = 0; k < (N + 63) / 64; ++k) {
        v[k] = (x / 64 == k ? 1ull << x % 64 : 0) | (y / 64 == k ? 1ull << y % 64 : 0);
        if (inv) v[k] = ~v[k];
      }
      if (N % 64) v[N / 64] &= (uint64_t{1} << (N % 64)) - 1;
      memcpy((void*)&b, v, sizeof v);
      size_t in = (x >= i && x < i + n) + (two && y >= i && y < i + n);
      verif_assert(b.CountBits(i, n) == (inv ? n - in : in), "CountBits");
      break;
    }
    case 3: {
      bool any = false;
      verif_assert(b.CountBits() == b.CountBits(0, N), "CountBits of everything");
      bool z = b.IsZero();
      if (z) verif_assert(!at(b, w), "IsZero with a bit set");
      else verif_assert(b.FindSet(0) < N, "not IsZero without a bit set");
      verif_assert(b.size() == N, "size");
      b.ClearLowestBit();
      size_t low = old.FindSet(0);
      verif_assert(at(b, w) == (w != low && at(old, w)), "ClearLowestBit");
      b.Clear();
      verif_assert(!at(b, w), "Clear");
      break;
    }
    case 4: {                                       // forward searches
      size_t i = verif_range("i", 0, N - 1);
      size_t s = b.FindSet(i), c = b.FindClear(i);
      verif_assert(s <= N && c <= N && s >= i && c >= i, "search result out of range");
      if (s < N) verif_assert(at(b, s), "FindSet found a clear bit");
      if (c < N) verif_assert(!at(b, c), "FindClear found a set bit");
      if (w >= i && w < s) verif_assert(!at(b, w), "FindSet skipped a set bit");
      if (w >= i && w < c) verif_assert(at(b, w), "FindClear skipped a clear bit");
      break;
    }
    case 5: {                                       // backward searches
      size_t i = verif_range("i", 0, N - 1);
      ssize_t s = b.FindSetBackwards(i), c = b.FindClearBackwards(i);
      verif_assert(s >= -1 && c >= -1 && s <= (ssize_t)i && c <= (ssize_t)i, "search result out of range");
      if (s >= 0) verif_assert(at(b, s), "FindSetBackwards found a clear bit");
      if (c >= 0) verif_assert(!at(b, c), "FindClearBackwards found a set bit");
      if ((ssize_t)w > s && w <= i) verif_assert(!at(b, w), "FindSetBackwards skipped a set bit");
      if ((ssize_t)w > c && w <= i) verif_assert(at(b, w), "FindClearBackwards skipped a clear bit");
      break;
    }
    case 6: {                                       // next free range
      size_t i = verif_range("i", 0, N), idx = 12345, len = 54321;
      bool r = b.NextFreeRange(i, &idx, &len);
      if (!r) {
        if (w >= i) verif_assert(at(b, w), "a free bit was overlooked");
      } else {
        verif_assert(idx >= i && len >= 1 && idx + len <= N, "free range out of bounds");
        if (w >= i && w < idx) verif_assert(at(b, w), "an earlier free bit was overlooked");
        if (w >= idx && w < idx + len) verif_assert(!at(b, w), "the free range holds a set bit");
        if (idx + len < N) verif_assert(at(b, idx + len), "the free range is not maximal");
      }
      break;
    }
    case 7: {                                       // bitwise operators
      B c;
      arbitrary(c, "other");
      verif_assert(at(~b, w) == !at(b, w), "operator~");
      verif_assert(clean(~b), "operator~ keeps the dead bits clear");
      verif_assert(at(b & c, w) == (at(b, w) && at(c, w)), "operator&");
      verif_assert(at(b | c, w) == (at(b, w) || at(c, w)), "operator|");
      verif_assert(at(b ^ c, w) == (at(b, w) != at(c, w)), "operator^");
      break;
    }
    case 8: {                                       // PopBatch
      size_t limit = verif_range("limit", 0, 4);
      size_t seen[4]; size_t k = 0;
      verif_assume(b.CountBits() <= 3);
      size_t r = b.PopBatch([&](size_t i) { verif_assert(k < 4, "more visits than the limit"); seen[k++] = i; }, limit);
      verif_assert(r == k && r <= limit, "PopBatch count");
      for (size_t j = 0; j < k; ++j) {
        verif_assert(at(old, seen[j]) && !at(b, seen[j]), "PopBatch visited a bit it should not");
        if (j) verif_assert(seen[j] > seen[j - 1], "PopBatch order");
      }
      if (k < limit) verif_assert(b.IsZero(), "PopBatch left bits behind");
      bool popped = false;
      for (size_t j = 0; j < k; ++j) popped |= seen[j] == w;
      verif_assert(at(b, w) == (at(old, w) && !popped), "PopBatch changed another bit");
      break;
    }
    case 9: {                                       // CopyBits between sizes
      Bitmap<96> src;
      arbitrary(src, "src");
      static const uint8_t ds[] = {0, 1, 37, 63, 64, 65, 100, 127, 128, 129}, ss[] = {0, 1, 31, 63, 64, 65, 95};
      size_t d = ds[verif_choice(10, "d")], s = ss[verif_choice(7, "s")], len = verif_range("len", 0, 96);
      verif_assume(d + len <= N && s + len <= 96);
      CopyBits(b, d, src, s, len);
      if (w >= d && w < d + len) verif_assert(at(b, w) == at(src, w - d + s), "CopyBits copied the wrong bit");
      else verif_assert(at(b, w) == at(old, w), "CopyBits changed a bit outside its range");
      break;
    }
  }
  verif_reach("done");
}
