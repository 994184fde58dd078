// The intrusive lists: every history of operations against a plain array.
#include "tcmalloc/internal/linked_list.h"
#include "verif.h"
using namespace tcmalloc::tcmalloc_internal;
struct Node : TList<Node>::Elem { int v = 0; Node() = default; };
static const int kN = 8;
static Node nodes[kN];
static TList<Node> list, other;
static Node* model[2][kN]; static int len[2];
static TList<Node>& L(int i) { return i ? other : list; }
static void check() {
  for (int l = 0; l < 2; ++l) {
    verif_assert(L(l).length() == (size_t)len[l] && L(l).empty() == (len[l] == 0), "the list's length is wrong");
    int i = 0;
    for (Node* n : L(l)) { verif_assert(i < len[l] && n == model[l][i], "the list holds other elements or another order"); ++i; }
    verif_assert(i == len[l], "iteration stopped early");
    for (auto it = L(l).rbegin(); it != L(l).rend(); ++it) verif_assert(*it == model[l][--i], "iterating backwards gives another order");
    verif_assert(i == 0, "iterating backwards stopped early");
    if (len[l]) verif_assert(L(l).first() == model[l][0] && L(l).last() == model[l][len[l] - 1], "first or last is wrong");
  }
}
static void insert(int l, int at, Node* n) { for (int i = len[l]; i > at; --i) model[l][i] = model[l][i - 1]; model[l][at] = n; ++len[l]; }
static Node* erase(int l, int at) { Node* n = model[l][at]; for (int i = at; i + 1 < len[l]; ++i) model[l][i] = model[l][i + 1]; --len[l]; return n; }
static void tlist(int ops) {
  int fresh = 0;
  for (int k = 0; k < ops; ++k) {
    int l = verif_choice(2, "list");
    switch (verif_choice(5, "op")) {
      case 0: if (fresh == kN) verif_end_path(); L(l).prepend(&nodes[fresh]); insert(l, 0, &nodes[fresh++]); break;
      case 1: if (fresh == kN) verif_end_path(); L(l).append(&nodes[fresh]); insert(l, len[l], &nodes[fresh++]); break;
      case 2: {
        if (!len[l]) verif_end_path();
        uint64_t at = verif_range("at", 0, len[l] - 1);
        Node* n = model[l][at];
        bool r = L(l).remove(n);
        verif_assert(r == (len[l] == 1), "remove did not report whether the list is now empty");
        at = verif_concretize(at);
        erase(l, at);
        // it can join another list afterwards
        if (verif_choice(2, "move")) { L(1 - l).append(n); insert(1 - l, len[1 - l], model[0][0] == n ? n : n); }
        break;
      }
      case 3: { if (!len[l] || fresh == kN) verif_end_path(); int at = verif_choice(len[l], "at"); L(l).prepend(model[l][at], &nodes[fresh]); insert(l, at, &nodes[fresh++]); break; }
      case 4: { if (!len[l] || fresh == kN) verif_end_path(); int at = verif_choice(len[l], "at"); L(l).append(model[l][at], &nodes[fresh]); insert(l, at + 1, &nodes[fresh++]); break; }
    }
    check();
  }
  verif_reach("done");
}
alignas(16) static char objs[16][16];
static void single(int ops) {
  static LinkedList s;
  void* m[16]; int n = 0; int fresh = 0; void* freed[16]; int nfreed = 0;
  auto obj = [&]() -> void* { if (nfreed) return freed[--nfreed]; if (fresh == 16) verif_end_path(); return objs[fresh++]; };
  for (int k = 0; k < ops; ++k) {
    switch (verif_choice(4, "op")) {
      case 0: { void* p = obj(); s.Push(p); m[n++] = p; break; }
      case 1: { void* p = nullptr; bool r = s.TryPop(&p); verif_assert(r == (n > 0), "a pop succeeded on an empty list or failed on another"); if (r) { verif_assert(p == m[n - 1], "a pop returned another object than the last pushed"); freed[nfreed++] = m[--n]; } break; }
      case 2: {
        int c = 1 + verif_choice(3, "n");
        void* b[4];
        for (int i = 0; i < c; ++i) b[i] = obj();
        s.PushBatch(c, b);
        for (int i = c; i-- > 0;) m[n++] = b[i];
        break;
      }
      case 3: {
        if (!n) verif_end_path();
        int c = 1 + verif_choice(n < 3 ? n : 3, "n");
        void* b[4];
        s.PopBatch(c, b);
        for (int i = 0; i < c; ++i) verif_assert(b[i] == m[n - 1 - i], "a batch does not hold the last objects pushed");
        for (int i = 0; i < c; ++i) freed[nfreed++] = m[--n];
        break;
      }
    }
    // objects outside the list belong to their user again
    for (int i = 0; i < nfreed; ++i) *(uint64_t*)freed[i] = verif_u64("junk");
    verif_assert(s.length() == (size_t)n && s.empty() == (n == 0), "the list's length is wrong");
  }
  void* p;
  while (n) { verif_assert(s.TryPop(&p) && p == m[n - 1], "an object was lost"); --n; }
  verif_assert(!s.TryPop(&p), "an object appeared");
  verif_reach("done");
}
void harness_main() { if (verif_param(0) == 0) tlist(verif_param(1)); else single(verif_param(1)); }
