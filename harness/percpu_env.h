// Per-CPU mode for whole-allocator harnesses: the kernel model for restartable
// sequences, and the list of possible CPUs.
#pragma once
#include "rseq_model.h"
static const char* kPossible = "0-1\n";
extern "C" {
static int g_off;
int open(const char* p, int, ...) {
  const char* w = "/sys/devices/system/cpu/possible";
  for (; *w; p++, w++) if (*p != *w) { errno = ENOENT; return -1; }
  return 3;
}
ssize_t read(int, void* p, size_t n) {
  int k = 0;
  while (kPossible[g_off] && (size_t)k < n) ((char*)p)[k++] = kPossible[g_off++];
  return k;
}
}
