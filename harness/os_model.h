#pragma once
#include <cstddef>
#include <cstdint>
// Kernel model: address-space bookkeeping plus hooks through which a harness
// makes calls fail or watches them.
struct OsModel {
  static const int kMax = 64;
  struct Map { uintptr_t addr; size_t len; int prot; } maps[kMax];
  int nmaps = 0;
  uintptr_t next = 0x300000000000;
  int mmaps = 0, munmaps = 0, mprotects = 0, madvises = 0;
  size_t released = 0;
  int stack_depth = 3;
  bool zero_on_release = true;
  bool (*mmap_fails)(void*, size_t, int) = nullptr;
  bool (*mprotect_fails)(void*, size_t, int) = nullptr;
  void (*on_mprotect)(void*, size_t, int) = nullptr;
  int (*on_madvise)(void*, size_t, int) = nullptr;   // returns an errno or 0
  int (*on_munlock)(const void*, size_t) = nullptr;
  void (*on_munmap)(void*, size_t) = nullptr;
  bool (*taken)(uintptr_t, size_t) = nullptr;        // addresses somebody else uses
  bool no_noreplace = false;                         // a kernel that ignores MAP_FIXED_NOREPLACE
  bool real_madvise = false;                         // the hook's answer stands for every advice
};
extern "C" OsModel os;
