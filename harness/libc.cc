// Environment model shared by symbolic runs and native replays: the parts of
// libc and the kernel that the allocator calls. Included by stubs.cc's build
// separately so that no libc prototype is in scope.
#include <stddef.h>
#include <stdint.h>
#include "verif.h"
#include "os_model.h"
#define NX noexcept
extern "C" { int* __errno_location() noexcept; }
#define errno (*__errno_location())
enum { EINVAL = 22, ENOMEM = 12, EEXIST = 17, ENOSYS = 38, ENOENT = 2, EBADF = 9 };
enum { PROT_WRITE = 2, MAP_FIXED = 0x10 };
#define MAP_FAILED ((void*)-1)
typedef long off_t; typedef long ssize_t; typedef int pid_t;
// ---------------------------------------------------------------- C strings
extern "C" {
#ifndef VERIF_NO_LIBC
__attribute__((weak)) int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
__attribute__((weak)) int bcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1;
  return 0;
}
__attribute__((weak)) size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((weak)) size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
__attribute__((weak)) int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
__attribute__((weak)) int strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) break; }
  return 0;
}
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
__attribute__((weak)) int strcasecmp(const char* a, const char* b) { while (*a && lower(*a) == lower(*b)) a++, b++; return lower(*a) - lower(*b); }
__attribute__((weak)) void* memchr(const void* p, int c, size_t n) {
  const unsigned char* s = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i);
  return nullptr;
}
static int verif_errno;
int* __errno_location() noexcept { return &verif_errno; }
__attribute__((weak)) char* verif_environ[8];
char** environ = verif_environ;
void* stderr = nullptr;
double ldexp(double x, int e) noexcept { while (e > 0) { x *= 2; e--; } while (e < 0) { x /= 2; e++; } return x; }
__attribute__((weak)) int sscanf(const char*, const char*, ...) { return 0; }
__attribute__((weak)) int __isoc99_sscanf(const char*, const char*, ...) { return 0; }
__attribute__((weak)) int __isoc23_sscanf(const char*, const char*, ...) { return 0; }
int fprintf(void*, const char*, ...) { return 0; }
size_t fwrite(const void*, size_t, size_t n, void*) { return n; }
__attribute__((weak)) int snprintf(char* b, size_t n, const char*, ...) noexcept { if (n) b[0] = 0; return 0; }
#endif

// ---------------------------------------------------------------- clock
__attribute__((weak)) int64_t verif_now = 1000000000000ll;
__attribute__((weak)) double verif_freq = 1e9;
__attribute__((weak)) int64_t verif_cycles() { return verif_now; }
__attribute__((weak)) double verif_cycle_freq() { return verif_freq; }

// ---------------------------------------------------------------- kernel
OsModel os;
static void osTouch(uintptr_t a, size_t n, bool on) { if (on) verif_map((void*)a, n); else verif_unmap((void*)a, n); }
static bool osOverlaps(uintptr_t a, size_t n) {
  for (int i = 0; i < os.nmaps; i++) if (a < os.maps[i].addr + os.maps[i].len && os.maps[i].addr < a + n) return true;
  return false;
}
void* mmap(void* addr, size_t len, int prot, int flags, int, off_t) noexcept {
  os.mmaps++;
  uintptr_t a = (uintptr_t)addr;
  if (len == 0 || (a & 4095)) { errno = EINVAL; return MAP_FAILED; }
  len = (len + 4095) & ~(size_t)4095;
  if (os.mmap_fails && os.mmap_fails(addr, len, flags)) { errno = ENOMEM; return MAP_FAILED; }
  if (os.no_noreplace) flags &= ~0x100000;
  if (!(flags & MAP_FIXED) && a && os.taken && os.taken(a, len)) {
    if (flags & 0x100000) { errno = EEXIST; return MAP_FAILED; }
    a = 0;
  }
  if ((flags & 0x100000) && osOverlaps(a, len)) { errno = EEXIST; return MAP_FAILED; }
  if (!(flags & (0x100000 | MAP_FIXED)) && (a == 0 || osOverlaps(a, len))) {
    a = os.next;
    os.next += (len + (1 << 21)) & ~(uintptr_t)4095;
  }
  if (os.nmaps < OsModel::kMax) os.maps[os.nmaps++] = {a, len, prot};
  if (prot & PROT_WRITE) osTouch(a, len, true);
  return (void*)a;
}
int munmap(void* p, size_t len) noexcept {
  uintptr_t a = (uintptr_t)p;
  os.munmaps++;
  if (os.on_munmap) os.on_munmap(p, len);
  for (int i = 0; i < os.nmaps; i++) if (os.maps[i].addr == a) {
    if (os.maps[i].prot & PROT_WRITE) osTouch(a, len, false);
    if (os.maps[i].len <= len) os.maps[i] = os.maps[--os.nmaps];
    else { os.maps[i].addr += len; os.maps[i].len -= len; }
    break;
  }
  return 0;
}
int mprotect(void* p, size_t len, int prot) noexcept {
  uintptr_t a = (uintptr_t)p;
  os.mprotects++;
  if (os.mprotect_fails && os.mprotect_fails(p, len, prot)) { errno = ENOMEM; return -1; }
  if (os.on_mprotect) { os.on_mprotect(p, len, prot); return 0; }
  if ((prot & PROT_WRITE)) osTouch(a, len, true);
  return 0;
}
int madvise(void* p, size_t len, int advice) noexcept {
  os.madvises++;
  if (os.on_madvise) {
    int e = os.on_madvise(p, len, advice);
    if (e) { errno = e; return -1; }
    if (os.real_madvise) return 0;
  }
  if (advice == 9 /* MADV_REMOVE */) { errno = EINVAL; return -1; }
  if (advice == 4 || advice == 24) {
    if (os.zero_on_release) osTouch((uintptr_t)p, len, true);
    if (advice == 24) { errno = EINVAL; return -1; }
    os.released += len;
  }
  return 0;
}
__attribute__((weak)) int mincore(void*, size_t, unsigned char*) noexcept { errno = ENOSYS; return -1; }
int munlock(const void* p, size_t n) noexcept {
  int e = os.on_munlock ? os.on_munlock(p, n) : 0;
  if (e) { errno = e; return -1; }
  return 0;
}
int prctl(int, ...) noexcept { return 0; }
__attribute__((weak)) long syscall(long, ...) noexcept { errno = ENOSYS; return -1; }
__attribute__((weak)) long sysconf(int) noexcept { return 4096; }
unsigned long getauxval(unsigned long) noexcept { return 0; }
pid_t getpid() noexcept { return 1; }
__attribute__((weak)) int open(const char*, int, ...) { errno = ENOENT; return -1; }
__attribute__((weak)) int close(int) { return 0; }
__attribute__((weak)) ssize_t read(int, void*, size_t) { errno = EBADF; return -1; }
__attribute__((weak)) ssize_t write(int, const void*, size_t n) { return n; }
__attribute__((weak)) off_t lseek(int, off_t, int) noexcept { errno = EBADF; return -1; }
int poll(void*, unsigned long, int) { return 0; }
__attribute__((weak)) ssize_t process_vm_readv(int, const void*, unsigned long, const void*, unsigned long, unsigned long) noexcept { errno = ENOSYS; return -1; }
int sched_getcpu() noexcept { return 0; }
__attribute__((weak)) int sched_getaffinity(int, size_t n, void* s) noexcept { if (n) ((unsigned char*)s)[0] = 1; return 0; }
int sched_setaffinity(int, size_t, const void*) noexcept { return 0; }
int __sched_cpucount(size_t n, const void* s) noexcept { int c = 0; for (size_t i = 0; i < n; i++) c += __builtin_popcount(((const unsigned char*)s)[i]); return c; }
int pthread_key_create(unsigned* k, void (*)(void*)) noexcept { *k = 1; return 0; }
int pthread_setspecific(unsigned, const void*) noexcept { return 0; }
unsigned long pthread_self() noexcept { return 0x1000 + verif_cur_thread(); }
int pthread_sigmask(int, const void*, void*) noexcept { return 0; }
int sigfillset(void*) noexcept { return 0; }
int sigaction(int, const void*, void*) noexcept { return 0; }
void verif_sink_append(void*, const char*, size_t) {}
}

