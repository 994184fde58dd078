// Stand-in for absl's CycleClock: time is an input of the harness.
#pragma once
#include <atomic>
#include <cstdint>
#include "absl/base/config.h"
extern "C" int64_t verif_cycles();
extern "C" double verif_cycle_freq();
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {
class CycleClock {
 public:
  static int64_t Now() { return verif_cycles(); }
  static double Frequency() { return verif_cycle_freq(); }
};
}  // namespace base_internal
ABSL_NAMESPACE_END
}  // namespace absl
