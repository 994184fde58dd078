// Deallocation profiling is not modelled: no profiler is ever registered.
#include "tcmalloc/deallocation_profiler.h"
#include "verif.h"
namespace tcmalloc {
namespace deallocationz {
class DeallocationProfiler {};
__attribute__((weak)) void DeallocationProfilerList::ReportMalloc(const tcmalloc_internal::StackTrace&) {}
__attribute__((weak)) void DeallocationProfilerList::ReportFree(tcmalloc_internal::AllocHandle) {}
__attribute__((weak)) DeallocationSample::DeallocationSample(DeallocationProfilerList*, Mode) { verif_crash(); }
__attribute__((weak)) DeallocationSample::~DeallocationSample() {}
__attribute__((weak)) tcmalloc::Profile DeallocationSample::Stop() && { verif_crash(); }
}
}
