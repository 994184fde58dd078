// Stand-in for absl/strings/str_format.h: the subset the allocator uses, with
// the newer %v / AbslStringify support. Formatting is never the subject of a
// check; under the symbolic executor verif_vformat is an empty stub.
#pragma once
#include <cstddef>
#include <cstdint>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/base/attributes.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
#include "absl/types/span.h"

struct verif_fmt_arg {
  int kind;  // 0 int, 1 uint, 2 double, 3 pointer, 4 string (p,n), 5 stringify
  uint64_t u;
  double d;
  const void* p;
  size_t n;
  void (*fn)(const void* obj, void* sink);
};
// Writes at most n-1 bytes and a NUL (when n > 0); returns the full length.
extern "C" int verif_vformat(char* buf, size_t n, const char* f, size_t flen,
                             const verif_fmt_arg* args, size_t nargs);
extern "C" void verif_sink_append(void* sink, const char* p, size_t n);

namespace absl {
struct VerifFormatSpec {
  const char* f;
  size_t n;
  constexpr VerifFormatSpec(const char* s) : f(s), n(__builtin_strlen(s)) {}
  constexpr VerifFormatSpec(absl::string_view s) : f(s.data()), n(s.size()) {}
};
template <typename... Args>
using FormatSpec = VerifFormatSpec;

class VerifSink {
 public:
  explicit VerifSink(void* s) : s_(s) {}
  void Append(absl::string_view v) { verif_sink_append(s_, v.data(), v.size()); }
  void Append(size_t n, char c) { while (n--) verif_sink_append(s_, &c, 1); }
  void* s_;
};

namespace verif_fmt {
template <class T, class = void> struct HasStringify : std::false_type {};
template <class T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(
                           std::declval<VerifSink&>(), std::declval<const T&>()))>>
    : std::true_type {};
template <class T>
void CallStringify(const void* o, void* s) {
  VerifSink k(s);
  AbslStringify(k, *static_cast<const T*>(o));
}
template <class T>
verif_fmt_arg Make(const T& v) {
  verif_fmt_arg a{};
  if constexpr (HasStringify<T>::value) {
    a.kind = 5; a.p = &v; a.fn = &CallStringify<T>;
  } else if constexpr (std::is_same_v<T, bool>) {
    a.kind = 0; a.u = v;
  } else if constexpr (std::is_enum_v<T>) {
    a.kind = 0; a.u = static_cast<uint64_t>(v);
  } else if constexpr (std::is_integral_v<T>) {
    a.kind = std::is_signed_v<T> ? 0 : 1; a.u = static_cast<uint64_t>(v);
  } else if constexpr (std::is_floating_point_v<T>) {
    a.kind = 2; a.d = v;
  } else if constexpr (std::is_convertible_v<const T&, absl::string_view>) {
    absl::string_view s(v);
    a.kind = 4; a.p = s.data(); a.n = s.size();
  } else if constexpr (std::is_pointer_v<T>) {
    a.kind = 3; a.p = (const void*)v;
  } else if constexpr (std::is_same_v<T, absl::Duration>) {
    a.kind = 2; a.d = absl::ToDoubleSeconds(v);
  } else {
    a.kind = 4; a.p = "?"; a.n = 1;
  }
  return a;
}
}  // namespace verif_fmt

template <typename... A>
int SNPrintF(char* b, size_t n, const VerifFormatSpec& f, const A&... a) {
  verif_fmt_arg v[sizeof...(A) + 1] = {verif_fmt::Make(a)..., verif_fmt_arg{}};
  return verif_vformat(b, n, f.f, f.n, v, sizeof...(A));
}
template <typename... A>
bool Format(VerifSink* s, const VerifFormatSpec& f, const A&... a) {
  char b[256];
  int r = SNPrintF(b, sizeof(b), f, a...);
  verif_sink_append(s->s_, b, r < 255 ? r : 255);
  return true;
}
template <class Sink, typename... A>
bool Format(Sink* s, const VerifFormatSpec& f, const A&... a) {
  char b[256];
  int r = SNPrintF(b, sizeof(b), f, a...);
  s->Append(absl::string_view(b, r < 255 ? r : 255));
  return true;
}
template <typename... A>
std::string StrFormat(const VerifFormatSpec& f, const A&... a) {
  char b[1024];
  int r = SNPrintF(b, sizeof(b), f, a...);
  return std::string(b, r < 1023 ? r : 1023);
}
template <typename... A>
void StrAppendFormat(std::string* d, const VerifFormatSpec& f, const A&... a) {
  *d += StrFormat(f, a...);
}
template <typename... A>
std::string StreamFormat(const VerifFormatSpec& f, const A&... a) {
  return StrFormat(f, a...);
}
}  // namespace absl
