#pragma once
#include <string>
namespace absl {
template <typename S, typename Op>
void StringResizeAndOverwrite(S& s, typename S::size_type n, Op op) {
  s.resize(n);
  s.resize(op(s.data(), n));
}
}
