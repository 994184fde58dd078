// Environment model shared by symbolic runs and native replays: the parts of
// libc, the kernel and the prebuilt abseil archive that the allocator calls.
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <string>
#include <sys/types.h>
#include <atomic>
#include <cstdint>
#include <new>
#include "absl/base/config.h"
#include "absl/hash/internal/hash.h"
#include "absl/base/log_severity.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/base/internal/low_level_alloc.h"
#include "absl/strings/string_view.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/numbers.h"
#include "absl/time/time.h"
#include "absl/base/internal/spinlock_wait.h"
#include "absl/base/internal/sysinfo.h"
#include "absl/debugging/stacktrace.h"
#include <map>
#include "verif.h"
#include "os_model.h"
extern "C" int64_t verif_cycles();

#ifndef VERIF_NO_ABSL
namespace absl {
ABSL_NAMESPACE_BEGIN
// ---------------------------------------------------------------- Duration
namespace {
const int64_t kTPS = time_internal::kTicksPerSecond;
bool Inf(Duration d) { return time_internal::GetRepLo(d) == ~uint32_t{0}; }
__int128 Ticks(Duration d) { return (__int128)time_internal::GetRepHi(d) * kTPS + time_internal::GetRepLo(d); }
Duration FromTicks(__int128 t) {
  int64_t hi;
  __int128 lim = ((__int128)1 << 63) * kTPS;
  if (t >= lim) return InfiniteDuration();
  if (t < -lim) return -InfiniteDuration();
  // Plain 64-bit arithmetic covers every value that fits.
  if (t == (int64_t)t) {
    int64_t v = (int64_t)t, q = v / kTPS, r = v % kTPS;
    if (r < 0) { r += kTPS; q--; }
    return time_internal::MakeDuration(q, (uint32_t)r);
  }
  // long division by kTPS on the magnitude, 64 bits of quotient
  bool neg = t < 0;
  unsigned __int128 m = neg ? -(unsigned __int128)t : (unsigned __int128)t;
  uint64_t q = 0;
  unsigned __int128 r = 0;
  for (int i = 127; i >= 0; i--) {
    r = (r << 1) | ((m >> i) & 1);
    q <<= 1;
    if (r >= (unsigned __int128)kTPS) { r -= kTPS; q |= 1; }
  }
  if (neg) {
    hi = -(int64_t)q;
    if (r) { hi--; r = kTPS - r; }
  } else hi = (int64_t)q;
  return time_internal::MakeDuration(hi, (uint32_t)(uint64_t)r);
}
}  // namespace
Duration& Duration::operator+=(Duration o) {
  if (Inf(*this)) return *this;
  if (Inf(o)) return *this = o;
  return *this = FromTicks(Ticks(*this) + Ticks(o));
}
Duration& Duration::operator-=(Duration o) {
  if (Inf(*this)) return *this;
  if (Inf(o)) return *this = -o;
  return *this = FromTicks(Ticks(*this) - Ticks(o));
}
Duration& Duration::operator*=(int64_t r) {
  if (Inf(*this)) return r < 0 ? *this = -*this : *this;
  return *this = FromTicks(Ticks(*this) * r);
}
Duration& Duration::operator*=(double r) {
  if (Inf(*this)) return r < 0 ? *this = -*this : *this;
  double t = (double)time_internal::GetRepHi(*this) * (double)kTPS + (double)time_internal::GetRepLo(*this);
  t *= r;
  if (t >= 9.2e18 || t <= -9.2e18) return *this = Seconds((int64_t)(t / (double)kTPS));
  return *this = FromTicks((int64_t)t);
}
Duration& Duration::operator/=(int64_t r) {
  if (Inf(*this) || r == 0) return *this = ((time_internal::GetRepHi(*this) < 0) != (r < 0)) ? -InfiniteDuration() : InfiniteDuration();
  __int128 t = Ticks(*this);
  if (t == (int64_t)t) return *this = FromTicks((int64_t)t / r);
  return *this = FromTicks(t / r);
}
Duration& Duration::operator/=(double r) { return *this *= 1.0 / r; }
namespace time_internal {
int64_t IDivDuration(bool, Duration a, Duration b, Duration* rem) {
  if (Inf(a)) { *rem = a; return a < ZeroDuration() ? INT64_MIN : INT64_MAX; }
  if (Inf(b)) { *rem = a; return 0; }
  __int128 x = Ticks(a), y = Ticks(b);
  if (y == 0) { *rem = a < ZeroDuration() ? -InfiniteDuration() : InfiniteDuration(); return a < ZeroDuration() ? INT64_MIN : INT64_MAX; }
  if (x == (int64_t)x && y == (int64_t)y) { int64_t q = (int64_t)x / (int64_t)y; *rem = FromTicks((int64_t)x - q * (int64_t)y); return q; }
  __int128 q = x / y;
  if (q > INT64_MAX) q = INT64_MAX;
  if (q < INT64_MIN) q = INT64_MIN;
  *rem = FromTicks(x - q * y);
  return (int64_t)q;
}
}  // namespace time_internal
double FDivDuration(Duration a, Duration b) {
  if (Inf(a) || b == ZeroDuration()) return a < ZeroDuration() ? -__builtin_inf() : __builtin_inf();
  if (Inf(b)) return 0;
  double x = (double)time_internal::GetRepHi(a) * (double)kTPS + (double)time_internal::GetRepLo(a);
  double y = (double)time_internal::GetRepHi(b) * (double)kTPS + (double)time_internal::GetRepLo(b);
  return x / y;
}
double ToDoubleSeconds(Duration d) { return FDivDuration(d, Seconds(1)); }
double ToDoubleMilliseconds(Duration d) { return FDivDuration(d, Milliseconds(1)); }
static int64_t ToUnit(Duration d, Duration u) { Duration r; return time_internal::IDivDuration(true, d, u, &r); }
int64_t ToInt64Nanoseconds(Duration d) { return ToUnit(d, Nanoseconds(1)); }
int64_t ToInt64Microseconds(Duration d) { return ToUnit(d, Microseconds(1)); }
int64_t ToInt64Milliseconds(Duration d) { return ToUnit(d, Milliseconds(1)); }
int64_t ToInt64Seconds(Duration d) {
  int64_t hi = time_internal::GetRepHi(d);
  if (Inf(d)) return hi;
  if (hi < 0 && time_internal::GetRepLo(d) != 0) ++hi;
  return hi;
}
int64_t ToInt64Minutes(Duration d) { return ToUnit(d, Minutes(1)); }
int64_t ToInt64Hours(Duration d) { return ToUnit(d, Hours(1)); }
std::string FormatDuration(Duration) { return std::string(); }
Time Now() { return FromUnixNanos(verif_cycles()); }

// ---------------------------------------------------------------- hashing
namespace hash_internal {
const void* const MixingHashState::kSeed = nullptr;
uint64_t MixingHashState::LowLevelHashImpl(const unsigned char* d, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) { h ^= d[i]; h *= 1099511628211ull; }
  return h;
}
uint64_t MixingHashState::CombineLargeContiguousImpl64(uint64_t s, const unsigned char* d, size_t n) { return s ^ LowLevelHashImpl(d, n); }
}  // namespace hash_internal

// ---------------------------------------------------------------- the rest
int GetStackTrace(void** r, int max, int) {
  int n = os.stack_depth < max ? os.stack_depth : max;
  for (int i = 0; i < n; i++) r[i] = (void*)(uintptr_t)(0x1000 + 16 * i);
  return n;
}
int GetStackTraceWithContext(void** r, int max, int sk, const void*, int* dropped) {
  if (dropped) *dropped = 0;
  return GetStackTrace(r, max, sk);
}
namespace base_internal {
pid_t GetTID() { return 1 + verif_cur_thread(); }
uint32_t SpinLockWait(std::atomic<uint32_t>* w, int n, const SpinLockWaitTransition t[], SchedulingMode) {
  for (;;) {
    uint32_t v = w->load(std::memory_order_acquire);
    int i = 0;
    for (; i < n; i++) if (v == t[i].from) break;
    if (i == n) { verif_yield(); continue; }
    if (t[i].to == v || w->compare_exchange_strong(v, t[i].to, std::memory_order_acquire)) { if (t[i].done) return v; }
  }
}
void ThrowStdOutOfRange(const char*) { verif_crash(); }
}  // namespace base_internal
namespace raw_logging_internal {
void RawLog(absl::LogSeverity s, const char*, int, const char*, ...) { if (s == absl::LogSeverity::kFatal) verif_crash(); }
}  // namespace raw_logging_internal
size_t string_view::find(char c, size_t pos) const noexcept {
  for (size_t i = pos; i < size(); i++) if (data()[i] == c) return i;
  return npos;
}
size_t string_view::find(string_view s, size_t pos) const noexcept {
  for (size_t i = pos; i + s.size() <= size(); i++) {
    size_t j = 0;
    while (j < s.size() && data()[i + j] == s.data()[j]) j++;
    if (j == s.size()) return i;
  }
  return npos;
}
namespace ascii_internal {
#include "ascii_tables.inc"
}  // namespace ascii_internal
namespace numbers_internal {
static bool spc(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
// Decimal (and base 16 on request) integers with optional sign, surrounding
// whitespace allowed, as absl::SimpleAtoi accepts.
template <class U, class S>
static bool parse(string_view t, S* out, int base, bool allowNeg, U max, U minMag) {
  size_t i = 0, e = t.size();
  while (i < e && spc(t[i])) i++;
  while (e > i && spc(t[e - 1])) e--;
  bool neg = false;
  if (i < e && (t[i] == '-' || t[i] == '+')) { neg = t[i] == '-'; i++; }
  if (neg && !allowNeg) return false;
  if (base == 16 && i + 1 < e && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X')) i += 2;
  if (i >= e) return false;
  U v = 0, lim = neg ? minMag : max;
  for (; i < e; i++) {
    unsigned d;
    char c = t[i];
    if (c >= '0' && c <= '9') d = c - '0';
    else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10;
    else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10;
    else return false;
    if (v > (lim - d) / (U)base) { *out = neg ? (S)(0 - minMag) : (S)max; return false; }
    v = v * base + d;
  }
  *out = neg ? (S)(0 - v) : (S)v;
  return true;
}
bool safe_strto32_base(string_view t, int32_t* v, int b) { int64_t r; if (!parse<uint64_t, int64_t>(t, &r, b, true, 0x7fffffff, 0x80000000u)) return false; *v = (int32_t)r; return true; }
bool safe_strto64_base(string_view t, int64_t* v, int b) { return parse<uint64_t, int64_t>(t, v, b, true, INT64_MAX, (uint64_t)1 << 63); }
bool safe_strtou32_base(string_view t, uint32_t* v, int b) { uint64_t r; if (!parse<uint64_t, uint64_t>(t, &r, b, false, 0xffffffffu, 0)) return false; *v = (uint32_t)r; return true; }
bool safe_strtou64_base(string_view t, uint64_t* v, int b) { return parse<uint64_t, uint64_t>(t, v, b, false, ~0ull, 0); }
char* FastIntToBuffer(uint64_t u, char* b) {
  char t[24]; int n = 0;
  do { t[n++] = '0' + u % 10; u /= 10; } while (u);
  while (n) *b++ = t[--n];
  *b = 0;
  return b;
}
char* FastIntToBuffer(int64_t i, char* b) { uint64_t u = i; if (i < 0) { *b++ = '-'; u = 0 - u; } return FastIntToBuffer(u, b); }
char* FastIntToBuffer(uint32_t u, char* b) { return FastIntToBuffer((uint64_t)u, b); }
char* FastIntToBuffer(int32_t i, char* b) { return FastIntToBuffer((int64_t)i, b); }
size_t SixDigitsToBuffer(double, char* b) { *b = '0'; return 1; }
}  // namespace numbers_internal
bool SimpleAtod(string_view t, double* out) {
  int64_t v;
  if (!numbers_internal::parse<uint64_t, int64_t>(t, &v, 10, true, INT64_MAX, (uint64_t)1 << 63)) return false;
  *out = (double)v;
  return true;
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b) {
  std::string r(a.data(), a.size());
  r.append(b.data(), b.size());
  return r;
}
Status::Status(StatusCode c, string_view) : rep_((uintptr_t)c << 2) {}
Status InternalError(string_view) { return Status(static_cast<StatusCode>(13), ""); }
void Status::UnrefNonInlined(uintptr_t) {}
namespace internal_statusor { void Helper::HandleInvalidStatusCtorArg(Status*) { verif_crash(); } }
namespace base_internal {
void* LowLevelAlloc::AllocWithArena(size_t n, Arena*) { return malloc(n); }
void* LowLevelAlloc::Alloc(size_t n) { return malloc(n); }
void LowLevelAlloc::Free(void* p) { free(p); }
LowLevelAlloc::Arena* LowLevelAlloc::NewArena(int32_t) { return (Arena*)malloc(8); }
}
ABSL_NAMESPACE_END
}  // namespace absl
template class std::basic_string<char>;
const std::nothrow_t std::nothrow{};
extern "C" void AbslInternalSpinLockWake_debian3(std::atomic<uint32_t>*, bool) {}
extern "C" void AbslInternalSpinLockDelay_debian3(std::atomic<uint32_t>*, uint32_t, int, absl::base_internal::SchedulingMode) { verif_yield(); }
extern "C" void AbslInternalSleepFor_debian3(absl::Duration) {}
#endif

// ---------------------------------------------------------------- libstdc++
namespace std {
// Unbalanced search tree: same in-order behaviour as the library's.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; h._M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
    if (h._M_parent == o) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  _Rb_tree_node_base* next = _Rb_tree_increment(z);
  _Rb_tree_node_base* prev = z == h._M_left ? &h : _Rb_tree_decrement(z);
  bool wasL = z == h._M_left, wasR = z == h._M_right;
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = next;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (wasL) h._M_left = next;
  if (wasR) h._M_right = prev;
  return z;
}
}  // namespace std
#ifndef VERIF_NO_SLAB_ASM
// Model of percpu_rseq_asm.S: harnesses for the slab replace it.
#endif
