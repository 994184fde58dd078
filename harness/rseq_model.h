// What the kernel does for restartable sequences, as far as the code relies on
// it: threads run on CPUs, one at a time per CPU; a thread that was preempted
// (another one ran on its CPU since), migrated, signalled or fenced gets its
// cpu ids rewritten, and if it was inside the sequence its rseq_cs names,
// continues at that sequence's abort address (engine/lift.cc does the jump).
#pragma once
#include <errno.h>
#include <atomic>
#include "tcmalloc/internal/percpu.h"
#include "verif.h"
namespace rseqm {
using tcmalloc::tcmalloc_internal::subtle::percpu::__rseq_abi;
constexpr int kCpus = 8, kThreads = 8;
struct Model {
  int ncpu = 2;
  int cpu[kThreads] = {};
  int last[kCpus] = {-1, -1, -1, -1, -1, -1, -1, -1};
  bool pend[kThreads] = {};
  bool registered[kThreads] = {};
  int spurious = 0;        // interruptions with nobody else running
  int migrations = 0;      // of these, how many may move the thread
  int steps = 0, aborts = 0, fences = 0;
  bool on = true;
  std::atomic<int> point{0};
};
inline Model g;
inline int me() { return verif_cur_thread(); }
inline void set_ids(int c) {
  __rseq_abi.cpu_id_start = c;
  __rseq_abi.cpu_id = c;
  __rseq_abi.mm_cid = c;
}
inline void start(int c) {     // what registration does
  int t = me();
  g.cpu[t] = c;
  g.last[c] = t;
  g.pend[t] = false;
  g.registered[t] = true;
  __rseq_abi.rseq_cs = 0;
  set_ids(c);
}
inline void migrate(int c) {   // at a point where no sequence is running
  int t = me();
  g.cpu[t] = c;
  g.last[c] = t;
  __rseq_abi.rseq_cs = 0;
  set_ids(c);
}
inline void fence(int c) {
  g.fences++;
  for (int t = 0; t < kThreads; t++)
    if (g.registered[t] && (c < 0 || g.cpu[t] == c)) g.pend[t] = true;
}
inline bool interrupted() {
  int t = me(), c = g.cpu[t];
  bool i = g.last[c] != t || g.pend[t];
  g.last[c] = t;
  g.pend[t] = false;
  return i;
}
// The thread is about to read its cpu number: apply what happened meanwhile.
inline void touch() {
  if (!g.on || !g.registered[me()]) return;
  if (interrupted()) { __rseq_abi.rseq_cs = 0; set_ids(g.cpu[me()]); }
}
}  // namespace rseqm
// Called by VirtualCpu::Synchronize before it reads the cpu id.
int tcmalloc::tcmalloc_internal::subtle::percpu::VirtualCpu::TestSynchronize() {
  rseqm::touch();
  return -1;
}
extern "C" {
uint64_t verif_rseq_step() {
  using namespace rseqm;
  if (!g.on || !g.registered[me()]) return 0;
  (void)g.point.load(std::memory_order_relaxed);      // others may run here
  bool i = interrupted();
  int t = me();
  g.steps++;
  if (!i && g.spurious > 0 && verif_choice(2, "interrupt")) {
    g.spurious--;
    i = true;
    if (g.migrations > 0 && verif_choice(2, "migrate")) {
      g.migrations--;
      int c = (g.cpu[t] + 1) % g.ncpu;
      g.cpu[t] = c;
      g.last[c] = t;
    }
  }
  if (!i) return 0;
  uint64_t cs = __rseq_abi.rseq_cs;
  __rseq_abi.rseq_cs = 0;
  set_ids(g.cpu[t]);
  return cs ? cs : 1;
}
void verif_rseq_abort(uint32_t sig) {
  rseqm::g.aborts++;
  verif_assert(sig == TCMALLOC_PERCPU_RSEQ_SIGNATURE, "the abort address carries the registered signature");
}

// rseq and membarrier
long syscall(long n, ...) noexcept {
  using namespace rseqm;
  __builtin_va_list ap;
  __builtin_va_start(ap, n);
  uint64_t a = __builtin_va_arg(ap, uint64_t), b = __builtin_va_arg(ap, uint64_t), c = __builtin_va_arg(ap, uint64_t), d = __builtin_va_arg(ap, uint64_t);
  __builtin_va_end(ap);
  if (n == 334) {                      // rseq
    if (!g.on) { errno = ENOSYS; return -1; }
    verif_assert(a == (uint64_t)&__rseq_abi, "rseq registers this thread's area");
    verif_assert((uint32_t)d == TCMALLOC_PERCPU_RSEQ_SIGNATURE, "registered signature");
    if (g.registered[me()]) { errno = EBUSY; return -1; }
    start(g.cpu[me()]);
    return 0;
  }
  if (n == 324) {                      // membarrier
    if (!g.on) { errno = ENOSYS; return -1; }
    if (a == (1 << 8)) return 0;
    if (a == (1 << 7)) { fence((b & 1) ? (int)c : -1); return 0; }
    errno = EINVAL;
    return -1;
  }
  errno = ENOSYS;
  return -1;
}
}
