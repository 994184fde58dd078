// Native runtime for the demonstrations: what the header stand-ins in shim/
// leave to the environment, with real behaviour.
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "absl/strings/str_format.h"
#include "tcmalloc/deallocation_profiler.h"
extern "C" {
int64_t verif_cycles() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
double verif_cycle_freq() { return 1e9; }
void verif_spin_wait(const void*) { sched_yield(); }
void verif_crash() { abort(); }
struct Sink { char* b; size_t n, len; };
void verif_sink_append(void* s, const char* p, size_t n) {
  Sink* k = (Sink*)s;
  for (size_t i = 0; i < n; ++i, ++k->len) if (k->len + 1 < k->n) k->b[k->len] = p[i];
}
int verif_vformat(char* b, size_t n, const char* f, size_t fl, const verif_fmt_arg* a, size_t na) {
  Sink s{b, n, 0};
  size_t ai = 0;
  for (size_t i = 0; i < fl; ++i) {
    if (f[i] != '%') { verif_sink_append(&s, f + i, 1); continue; }
    if (f[i + 1] == '%') { verif_sink_append(&s, "%", 1); ++i; continue; }
    char spec[32]; size_t k = 0; spec[k++] = '%'; ++i;
    while (i < fl && strchr("0123456789.+- #*", f[i])) { if (f[i] == '*') k += snprintf(spec + k, 8, "%d", ai < na ? (int)a[ai++].u : 0); else spec[k++] = f[i]; ++i; }
    while (i < fl && strchr("lzhjt", f[i])) ++i;
    char c = f[i], out[512];
    if (ai >= na) continue;
    const verif_fmt_arg& v = a[ai++];
    if (v.kind == 5) { v.fn(v.p, &s); continue; }
    if (v.kind == 4) { verif_sink_append(&s, (const char*)v.p, v.n); continue; }
    if (v.kind == 2) { spec[k++] = strchr("feg", c) ? c : 'f'; spec[k] = 0; snprintf(out, sizeof out, spec, v.d); }
    else if (v.kind == 3 || c == 'p') { snprintf(out, sizeof out, "%p", v.kind == 3 ? v.p : (void*)v.u); }
    else { spec[k++] = 'l'; spec[k++] = 'l'; spec[k++] = c == 'x' ? 'x' : c == 'c' ? 'd' : v.kind ? 'u' : 'd'; spec[k] = 0; snprintf(out, sizeof out, spec, (long long)v.u); }
    verif_sink_append(&s, out, strlen(out));
  }
  if (n) b[s.len < n ? s.len : n - 1] = 0;
  return s.len;
}
}
namespace tcmalloc {
namespace deallocationz {
class DeallocationProfiler {};
__attribute__((weak)) void DeallocationProfilerList::ReportMalloc(const tcmalloc_internal::StackTrace&) {}
__attribute__((weak)) void DeallocationProfilerList::ReportFree(tcmalloc_internal::AllocHandle) {}
__attribute__((weak)) DeallocationSample::DeallocationSample(DeallocationProfilerList*, Mode) { abort(); }
__attribute__((weak)) DeallocationSample::~DeallocationSample() {}
__attribute__((weak)) tcmalloc::Profile DeallocationSample::Stop() && { abort(); }
}
}
