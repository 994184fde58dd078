// Stand-in for absl::base_internal::SpinLock with the API of current abseil
// (the installed 20220623 one has an older API). A plain test-and-set lock.
#pragma once
#include <atomic>
#include <cstdint>
#include "absl/base/attributes.h"
#include "absl/base/const_init.h"
#include "absl/base/internal/low_level_scheduling.h"
#include "absl/base/internal/raw_logging.h"
#include "absl/base/internal/scheduling_mode.h"
#include "absl/base/macros.h"
#include "absl/base/thread_annotations.h"
extern "C" void verif_spin_wait(const void* lock);
namespace absl {
namespace base_internal {
class ABSL_LOCKABLE SpinLock {
 public:
  constexpr SpinLock() : w_(2) {}
  constexpr explicit SpinLock(base_internal::SchedulingMode m)
      : w_(m == base_internal::SCHEDULE_COOPERATIVE_AND_KERNEL ? 2 : 0) {}
  constexpr SpinLock(absl::ConstInitType, base_internal::SchedulingMode m)
      : w_(m == base_internal::SCHEDULE_COOPERATIVE_AND_KERNEL ? 2 : 0) {}
  ~SpinLock() = default;
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    while (!try_lock()) verif_spin_wait(this);
  }
  bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    uint32_t v = w_.load(std::memory_order_relaxed);
    return (v & 1) == 0 &&
           w_.compare_exchange_strong(v, v | 1, std::memory_order_acquire);
  }
  void unlock() ABSL_UNLOCK_FUNCTION() {
    w_.store(w_.load(std::memory_order_relaxed) & 2, std::memory_order_release);
  }
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return try_lock(); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { unlock(); }
  bool IsHeld() const {
    return (w_.load(std::memory_order_relaxed) & 1) != 0;
  }
  bool IsCooperative() const { return (w_.load(std::memory_order_relaxed) & 2) != 0; }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {
    if (!IsHeld()) __builtin_trap();
  }
 private:
  std::atomic<uint32_t> w_;
  SpinLock(const SpinLock&) = delete;
  SpinLock& operator=(const SpinLock&) = delete;
};
class ABSL_SCOPED_LOCKABLE SpinLockHolder {
 public:
  explicit SpinLockHolder(SpinLock& l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l) : l_(&l) { l.lock(); }
  explicit SpinLockHolder(SpinLock* l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l) : l_(l) { l->lock(); }
  ~SpinLockHolder() ABSL_UNLOCK_FUNCTION() { l_->unlock(); }
  SpinLockHolder(const SpinLockHolder&) = delete;
  SpinLockHolder& operator=(const SpinLockHolder&) = delete;
 private:
  SpinLock* l_;
};
}  // namespace base_internal
}  // namespace absl
