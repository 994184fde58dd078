#pragma once
#include <new>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A>
  explicit NoDestructor(A&&... a) { new (&space_) T(std::forward<A>(a)...); }
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return reinterpret_cast<T*>(&space_); }
 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
}
