// Central free lists and the spans behind them, inside the whole allocator.
#include "e2e.h"
#include "tcmalloc/central_freelist.h"
#include "tcmalloc/span.h"
#include "tcmalloc/pagemap.h"
using namespace tcmalloc::tcmalloc_internal;
static const int kMax = 1100;
static void* held[kMax];
static int nheld;
static size_t cl, size, per_span, pages;
static SpanStats base;
static uint64_t pattern(void* p) { return (uintptr_t)p * 0x9E3779B97F4A7C15ull + 7; }
// The first and last word of every object in use carry a pattern.
static void mark(void* p) { *(uint64_t*)p = pattern(p); *(uint64_t*)((char*)p + size - 8) = pattern(p); }
static bool intact(void* p) { return *(uint64_t*)p == pattern(p) && *(uint64_t*)((char*)p + size - 8) == pattern(p); }
static Span* span_of(void* p) { return tc_globals.pagemap().GetDescriptor(PageIdContaining(p)); }
static void check_object(void* p) {
  Span* s = span_of(p);
  verif_assert(s != nullptr && s != &tc_globals.invalid_span(), "an object handed out lies in no span");
  uintptr_t b = (uintptr_t)s->start_address();
  verif_assert((uintptr_t)p >= b && (uintptr_t)p + size <= b + s->bytes_in_span() && ((uintptr_t)p - b) % size == 0, "an object does not lie on a slot of its span");
  verif_assert(tc_globals.pagemap().sizeclass(PageIdContaining(p)) == cl, "an object's page has another size class");
  verif_assert(s->num_pages().raw_num() == pages, "a span has another length than its class");
}
static auto& list() { return tc_globals.central_freelist(cl); }
static size_t take(size_t want) {
  void* b[kMaxObjectsToMove];
  size_t got = list().RemoveRange(absl::MakeSpan(b, want));
  verif_assert(got >= 1 && got <= want, "RemoveRange returned an impossible count");
  for (size_t i = 0; i < got; ++i) {
    check_object(b[i]);
    for (int j = 0; j < nheld; ++j) verif_assert(held[j] != b[i], "an object in use was handed out again");
    held[nheld++] = b[i];
    mark(b[i]);
  }
  return got;
}
static void give(int from, int n) {
  void* b[kMaxObjectsToMove];
  for (int i = 0; i < n; ++i) { b[i] = held[from + i]; verif_assert(intact(b[i]), "the contents of an object in use changed"); }
  for (int i = from; i + n < nheld; ++i) held[i] = held[i + n];
  nheld -= n;
  list().InsertRange(absl::MakeSpan(b, n));
}
static void check_counts() {
  // every span in use knows how many of its objects are out
  size_t out = 0, spans = 0;
  Span* seen[64];
  for (int i = 0; i < nheld; ++i) {
    verif_assert(intact(held[i]), "the contents of an object in use changed");
    Span* s = span_of(held[i]);
    bool known = false;
    for (size_t j = 0; j < spans; ++j) known |= seen[j] == s;
    if (known) continue;
    seen[spans++] = s;
    if (per_span > 1) {
      size_t mine = 0;
      for (int j = 0; j < nheld; ++j) mine += span_of(held[j]) == s;
      verif_assert(s->Allocated() == mine, "a span's count of objects in use is wrong");
    }
    out += per_span;
  }
  if (per_span > 1) {
    verif_assert(list().length() == out - nheld, "the list's length is not the number of its free objects");
    SpanStats st = list().GetSpanStats();
    verif_assert(st.num_live_spans() == base.num_live_spans() + spans, "the list's number of live spans is wrong");
    verif_assert(st.obj_capacity == base.obj_capacity + out, "the list's object capacity is wrong");
  }
}
static size_t pick_span_objects() { return tc_globals.sizemap().num_objects_to_move(cl); }
static void init_class(size_t c) {
  cl = c; nheld = 0;
  size = tc_globals.sizemap().class_to_size(cl);
  pages = tc_globals.sizemap().class_to_pages(cl).raw_num();
  per_span = pages * kPageSize / size;
  // Objects left over from start-up are set aside first.
  void* b[kMaxObjectsToMove];
  while (per_span > 1 && list().length() > 0) (void)list().RemoveRange(absl::MakeSpan(b, std::min<size_t>(list().length(), 16)));
  base = list().GetSpanStats();
}
static bool usable(size_t c) { return c < kNumClasses && tc_globals.sizemap().class_to_size(c) != 0; }
void harness_main() {
  TCMalloc_Internal_SetProfileSamplingInterval(0);
  TCMallocInternalFree(TCMallocInternalMalloc(1000000));
  const int mode = verif_param(0), lo = verif_param(1), hi = verif_param(2);
  size_t c = lo + verif_choice(hi - lo + 1, "class");
  if (!usable(c)) return;
  init_class(c);
  const size_t batch = pick_span_objects();
  if (mode == 0) {
    // Exhaust one span, then return symbolic objects of it and take them back.
    while ((size_t)nheld < per_span) take(std::min(batch, per_span - nheld));
    Span* s = span_of(held[0]);
    for (int i = 0; i < nheld; ++i) verif_assert(span_of(held[i]) == s, "a second span was opened before the first was used up");
    check_counts();
    verif_reach("exhausted");
    if (per_span == 1) return;
    uintptr_t b = (uintptr_t)s->start_address();
    const int k = per_span > 2 ? verif_param(3) : 1;
    void* in[4]; uint64_t idx[4];
    for (int i = 0; i < k; ++i) {
      idx[i] = verif_range("idx", 0, per_span - 1);
      for (int j = 0; j < i; ++j) verif_assume(idx[i] != idx[j]);
      in[i] = (void*)(b + idx[i] * size);
    }
    if (verif_choice(2, "one_batch")) list().InsertRange(absl::MakeSpan(in, k));
    else for (int i = 0; i < k; ++i) list().InsertRange(absl::MakeSpan(in + i, 1));
    verif_assert(list().length() == (size_t)k && s->Allocated() == per_span - k, "returned objects were miscounted");
    void* out[4];
    int got = 0;
    while (got < k) {
      int n = list().RemoveRange(absl::MakeSpan(out + got, k - got));
      verif_assert(n >= 1 && n <= k - got, "RemoveRange returned an impossible count");
      got += n;
    }
    for (int i = 0; i < k; ++i) {
      bool found = false;
      for (int j = 0; j < k; ++j) found |= out[j] == in[i];
      verif_assert(found, "a returned object was not handed out again");
    }
    verif_assert(list().length() == 0 && s->Allocated() == per_span, "objects taken back were miscounted");
    verif_reach("done");
  } else if (mode == 1) {
    const int ops = verif_param(3);
    for (int op = 0; op < ops; ++op) {
      if (nheld == 0 || verif_choice(2, "op") == 0) take(1 + verif_choice(std::min<size_t>(batch, verif_param(4)), "want"));
      else {
        int n = 1 + verif_choice(std::min<int>({nheld, (int)batch, (int)verif_param(4)}), "give");
        give(verif_choice(nheld - n + 1, "from"), n);
      }
      check_counts();
    }
    while (nheld) give(0, std::min<int>(nheld, batch));
    check_counts();
    if (per_span > 1) verif_assert(list().length() == 0 && list().GetSpanStats().num_live_spans() == base.num_live_spans(), "an unused span was kept");
    verif_reach("done");
  } else if (mode == 2) {
    // several spans, fragmented: fill k spans, free a pattern, refill
    const int k = verif_param(3);
    while ((size_t)nheld < k * per_span) take(std::min(batch, k * per_span - nheld));
    check_counts();
    int from = verif_choice(nheld, "from");
    int n = 1 + verif_choice(std::min<int>(nheld - from, std::min<int>(batch, verif_param(4))), "n");
    give(from, n);
    check_counts();
    take(1 + verif_choice(std::min<int>(n, 3), "want"));
    check_counts();
    int f2 = verif_choice(nheld, "from");
    give(f2, std::min<int>(nheld - f2, batch));
    check_counts();
    while (nheld) give(0, std::min<int>(nheld, batch));
    verif_assert(per_span == 1 || list().GetSpanStats().num_live_spans() == base.num_live_spans(), "an unused span was kept");
    verif_reach("done");
  } else if (mode == 3) {
    // an object of another class must never enter the list
    take(1);
    size_t other = 1 + verif_choice(kNumBaseClasses - 1, "other");
    if (!usable(other) || other == cl) return;
    size_t mine = cl;
    (void)mine;
    void* q[kMaxObjectsToMove];
    verif_assert(tc_globals.central_freelist(other).RemoveRange(absl::MakeSpan(q, 1)) == 1, "no object");
    verif_expect_crash(1);
    list().InsertRange(absl::MakeSpan(q, 1));
    verif_assert(false, "an object of another size class was accepted");
  } else if (mode == 4) {
    // long runs through the in-object free list: return m objects in one of
    // several orders and batch sizes, and take them back
    const int total = verif_param(4) ? std::min<int>(verif_param(4), per_span) : per_span;
    while ((size_t)nheld < per_span) take(std::min(batch, per_span - nheld));
    static const int kStep[] = {1, 5}, kBatch[] = {1, 7, 32};
    const int step = kStep[verif_choice(2, "step")], nb = kBatch[verif_choice(3, "batch")];
    const int m = 1 + verif_choice(total, "m"), off = verif_choice(verif_param(3) + 1, "off");
    int given = 0;
    void* b[kMaxObjectsToMove];
    bool gone[kMax] = {};
    int pos = off;
    while (given < m) {
      int k = std::min<int>({nb, (int)batch, m - given});
      for (int i = 0; i < k; ++i) {
        pos = (pos + step) % per_span;
        while (gone[pos]) pos = (pos + 1) % per_span;
        gone[pos] = true;
        verif_assert(intact(held[pos]), "the contents of an object in use changed");
        b[i] = held[pos];
      }
      list().InsertRange(absl::MakeSpan(b, k));
      given += k;
    }
    if (m == (int)per_span) verif_assert(list().length() == 0, "an unused span was kept");
    else verif_assert(list().length() == (size_t)m, "returned objects were miscounted");
    int live = 0;
    for (int i = 0; i < nheld; ++i) if (!gone[i]) { verif_assert(intact(held[i]), "the contents of an object in use changed"); held[live++] = held[i]; }
    nheld = live;
    const int nt = kBatch[verif_choice(3, "take")];
    // every other history asks for more than is left
    const int over = step == 5 ? 2 : 0;
    int taken = 0;
    while (taken < m) taken += take(std::min<int>({nt, (int)batch, m - taken + over}));
    verif_assert(m == (int)per_span || taken > m || list().length() == 0, "the list did not hand out what it was given");
    if (m == (int)per_span || (over && m < 12)) check_counts();
    verif_reach("done");
  } else if (mode == 5) {
    // one batch with objects of several spans in any order
    const int k = verif_param(3), len = std::min<int>({(int)verif_param(4), (int)batch, (int)(k * per_span)});
    while ((size_t)nheld < k * per_span) take(std::min(batch, k * per_span - nheld));
    bool gone[kMax] = {};
    void* b[kMaxObjectsToMove];
    for (int i = 0; i < len; ++i) {
      int s = verif_choice(k, "span"), j = s * per_span;
      while (j < (int)((s + 1) * per_span) && gone[j]) ++j;
      if (j == (int)((s + 1) * per_span)) verif_end_path();
      gone[j] = true;
      b[i] = held[j];
    }
    int live = 0;
    for (int i = 0; i < nheld; ++i) if (!gone[i]) held[live++] = held[i];
    nheld = live;
    list().InsertRange(absl::MakeSpan(b, len));
    check_counts();
    for (int i = 0; i < len; ) i += take(std::min<int>(len - i, verif_param(5)));
    check_counts();
    while (nheld) give(0, std::min<int>(nheld, batch));
    verif_assert(per_span == 1 || list().GetSpanStats().num_live_spans() == base.num_live_spans(), "an unused span was kept");
    verif_reach("done");
  }
}
