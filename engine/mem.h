// Copy-on-write byte-addressed flat memory with per-byte validity and optional
// symbolic bytes.
#pragma once
#include <algorithm>
#include <map>
#include <unordered_map>
#include "expr.h"

static const unsigned kPgBits = 12;
static const uint64_t kPg = 1 << kPgBits;

struct Page {
  uint32_t rc = 1;
  uint32_t nsym = 0;
  uint8_t data[kPg];
  uint64_t valid[kPg / 64];
  E* sym = nullptr;  // kPg entries when present
  Page() { memset(data, 0, sizeof data); memset(valid, 0, sizeof valid); }
  Page(const Page& o) {
    memcpy(data, o.data, sizeof data);
    memcpy(valid, o.valid, sizeof valid);
    nsym = o.nsym;
    if (nsym) { sym = (E*)malloc(sizeof(E) * kPg); memcpy(sym, o.sym, sizeof(E) * kPg); }
  }
  ~Page() { free(sym); }
};
static inline void unref(Page* p) { if (p && --p->rc == 0) delete p; }

static const unsigned kLeafBits = 8;
struct Leaf {
  uint32_t rc = 1;
  Page* p[1 << kLeafBits];
  Leaf() { memset(p, 0, sizeof p); }
  Leaf(const Leaf& o) { memcpy(p, o.p, sizeof p); for (Page* q : p) if (q) q->rc++; }
  ~Leaf() { for (Page* q : p) unref(q); }
};
static inline void unref(Leaf* p) { if (--p->rc == 0) delete p; }

struct Memory {
  std::unordered_map<uint64_t, Leaf*> leaves;
  uint64_t rTag = ~0ull, wTag = ~0ull;
  Page *rPage = nullptr, *wPage = nullptr;
  Memory() {}
  std::map<uint64_t, uint64_t> lazy;  // page ranges [first,last) valid and zero until touched
  Memory(const Memory& o) : leaves(o.leaves), lazy(o.lazy) { for (auto& l : leaves) l.second->rc++; o.flush(); }
  Memory& operator=(const Memory&) = delete;
  ~Memory() { for (auto& l : leaves) unref(l.second); }
  void flush() const { auto* t = const_cast<Memory*>(this); t->rTag = t->wTag = ~0ull; }

  const Page* rd(uint64_t pn) {
    if (pn == rTag) return rPage;
    auto it = leaves.find(pn >> kLeafBits);
    Page* p = it == leaves.end() ? nullptr : it->second->p[pn & ((1 << kLeafBits) - 1)];
    if (!p && inLazy(pn)) p = wr(pn, true);
    if (p) { rTag = pn; rPage = p; }
    return p;
  }
  bool inLazy(uint64_t pn) const {
    if (lazy.empty()) return false;
    auto it = lazy.upper_bound(pn);
    if (it == lazy.begin()) return false;
    --it;
    return pn < it->second;
  }
  void lazyAdd(uint64_t f, uint64_t l) {  // pages [f,l)
    lazyDel(f, l);
    auto it = lazy.upper_bound(f);
    if (it != lazy.begin()) { auto p = std::prev(it); if (p->second == f) { f = p->first; lazy.erase(p); } }
    it = lazy.find(l);
    if (it != lazy.end()) { l = it->second; lazy.erase(it); }
    lazy[f] = l;
  }
  void lazyDel(uint64_t f, uint64_t l) {
    auto it = lazy.upper_bound(f);
    if (it != lazy.begin()) --it;
    while (it != lazy.end() && it->first < l) {
      uint64_t a = it->first, b = it->second;
      if (b <= f) { ++it; continue; }
      it = lazy.erase(it);
      if (a < f) lazy[a] = f;
      if (b > l) { lazy[l] = b; break; }
    }
  }
  Page* wr(uint64_t pn, bool create = false) {
    if (pn == wTag) return wPage;
    auto it = leaves.find(pn >> kLeafBits);
    bool lz = false;
    if (it == leaves.end() || !it->second->p[pn & ((1 << kLeafBits) - 1)]) { lz = inLazy(pn); create |= lz; }
    if (it == leaves.end()) {
      if (!create) return nullptr;
      it = leaves.emplace(pn >> kLeafBits, new Leaf).first;
    }
    Leaf*& l = it->second;
    Page* p = l->p[pn & ((1 << kLeafBits) - 1)];
    if (!p && !create) return nullptr;
    if (l->rc > 1) { l->rc--; l = new Leaf(*l); }
    Page*& slot = l->p[pn & ((1 << kLeafBits) - 1)];
    if (!slot) { slot = new Page; if (lz) memset(slot->valid, 0xff, sizeof slot->valid); }
    else if (slot->rc > 1) { slot->rc--; slot = new Page(*slot); }
    wTag = pn; wPage = slot;
    if (rTag == pn) rPage = slot;
    return slot;
  }
  bool havePage(uint64_t pn) const {
    auto it = leaves.find(pn >> kLeafBits);
    return it != leaves.end() && it->second->p[pn & ((1 << kLeafBits) - 1)];
  }
  void setValid(uint64_t a, uint64_t n, bool v) {
    if (n >= 16 * kPg) {
      uint64_t f = (a + kPg - 1) >> kPgBits, l = (a + n) >> kPgBits;
      if (v) lazyAdd(f, l); else lazyDel(f, l);
      for (uint64_t pn = f; pn < l; pn++) {
        auto it = leaves.find(pn >> kLeafBits);
        if (it == leaves.end()) { pn |= (1 << kLeafBits) - 1; continue; }
        if (!havePage(pn)) continue;
        Page* p = wr(pn);
        memset(p->valid, v ? 0xff : 0, sizeof p->valid);
      }
      setValid(a, (f << kPgBits) - a, v);
      setValid(l << kPgBits, a + n - (l << kPgBits), v);
      return;
    }
    while (n) {
      uint64_t o = a & (kPg - 1), l = std::min(n, kPg - o);
      Page* p = wr(a >> kPgBits, v);
      if (p) {
        if (l == kPg) memset(p->valid, v ? 0xff : 0, sizeof p->valid);
        else for (uint64_t i = o; i < o + l;) {
          if ((i & 63) == 0 && i + 64 <= o + l) { p->valid[i >> 6] = v ? ~0ull : 0; i += 64; }
          else { uint64_t b = 1ull << (i & 63); if (v) p->valid[i >> 6] |= b; else p->valid[i >> 6] &= ~b; i++; }
        }
      }
      a += l; n -= l;
    }
  }
  // Drops whole pages entirely inside the range; zero afterwards if remapped.
  void drop(uint64_t a, uint64_t n) {
    lazyDel(a >> kPgBits, (a + n) >> kPgBits);
    for (uint64_t pn = a >> kPgBits; pn < (a + n) >> kPgBits; pn++) {
      auto it = leaves.find(pn >> kLeafBits);
      if (it == leaves.end()) { pn |= (1 << kLeafBits) - 1; continue; }
      Leaf*& l = it->second;
      if (!l->p[pn & ((1 << kLeafBits) - 1)]) continue;
      if (l->rc > 1) { l->rc--; l = new Leaf(*l); }
      Page*& s = l->p[pn & ((1 << kLeafBits) - 1)];
      unref(s);
      s = nullptr;
    }
    flush();
  }
  bool isValid(uint64_t a, uint64_t n) {
    bool big = n > 4 * kPg;
    while (n) {
      uint64_t o = a & (kPg - 1), l = std::min(n, kPg - o);
      if (big && !havePage(a >> kPgBits) && inLazy(a >> kPgBits)) { a += l; n -= l; continue; }
      const Page* p = rd(a >> kPgBits);
      if (!p) return false;
      uint64_t i = o;
      while (i < o + l) {
        unsigned b = i & 63;
        uint64_t cnt = std::min<uint64_t>(64 - b, o + l - i);
        uint64_t m = (cnt == 64 ? ~0ull : ((1ull << cnt) - 1)) << b;
        if ((p->valid[i >> 6] & m) != m) return false;
        i += cnt;
      }
      a += l; n -= l;
    }
    return true;
  }
  E byteAt(uint64_t a) {  // assumes mapped
    const Page* p = rd(a >> kPgBits);
    uint64_t o = a & (kPg - 1);
    if (p->nsym && p->sym[o]) return p->sym[o];
    return X.cst(p->data[o], 8);
  }
  bool concreteRange(uint64_t a, uint64_t n) {
    for (uint64_t i = 0; i < n;) {
      const Page* p = rd((a + i) >> kPgBits);
      uint64_t o = (a + i) & (kPg - 1), l = std::min(n - i, kPg - o);
      if (p && p->nsym) for (uint64_t j = o; j < o + l; j++) if (p->sym[j]) return false;
      i += l;
    }
    return true;
  }
  // Reads n <= 8 bytes (n*8 bits); returns expression or sets c.
  E load(uint64_t a, unsigned n, uint64_t& c) {
    uint64_t o = a & (kPg - 1);
    if (o + n <= kPg) {
      const Page* p = rd(a >> kPgBits);
      if (!p->nsym) { c = 0; memcpy(&c, p->data + o, n); return nullptr; }
      bool s = false;
      for (unsigned i = 0; i < n; i++) if (p->sym[o + i]) { s = true; break; }
      if (!s) { c = 0; memcpy(&c, p->data + o, n); return nullptr; }
    } else if (concreteRange(a, n)) {
      c = 0;
      for (unsigned i = 0; i < n; i++) c |= (uint64_t)rd((a + i) >> kPgBits)->data[(a + i) & (kPg - 1)] << (8 * i);
      return nullptr;
    }
    E r = byteAt(a + n - 1);
    for (int i = (int)n - 2; i >= 0; i--) r = X.concat(r, byteAt(a + i));
    if (r->isConst() && r->w <= 64) { c = (uint64_t)r->k; return nullptr; }
    return r;
  }
  void storeC(uint64_t a, unsigned n, uint64_t v) {
    uint64_t o = a & (kPg - 1);
    if (o + n <= kPg) {
      Page* p = wr(a >> kPgBits);
      memcpy(p->data + o, &v, n);
      if (p->nsym) for (unsigned i = 0; i < n; i++) if (p->sym[o + i]) { p->sym[o + i] = nullptr; p->nsym--; }
      freeSym(p);
      return;
    }
    for (unsigned i = 0; i < n; i++) storeC(a + i, 1, (v >> (8 * i)) & 0xff);
  }
  static void freeSym(Page* p) { if (!p->nsym && p->sym) { free(p->sym); p->sym = nullptr; } }
  void storeByte(uint64_t a, E b) {
    if (b->isConst()) { storeC(a, 1, (uint64_t)b->k); return; }
    Page* p = wr(a >> kPgBits);
    uint64_t o = a & (kPg - 1);
    if (!p->sym) p->sym = (E*)calloc(kPg, sizeof(E));
    if (!p->sym[o]) p->nsym++;
    p->sym[o] = b;
  }
  void storeE(uint64_t a, unsigned n, E v) {
    for (unsigned i = 0; i < n; i++) storeByte(a + i, X.extract(v, 8 * i, 8));
  }
};
