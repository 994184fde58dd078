// Stand-in for percpu_rseq_asm.S: batch push/pop fail, so callers take the
// slow path. Harnesses that study the slab define their own.
#include <cstddef>
#include <cstdint>
extern "C" {
__attribute__((weak)) size_t TcmallocSlab_Internal_PushBatch(size_t, void**, size_t) { return 0; }
__attribute__((weak)) size_t TcmallocSlab_Internal_PopBatch(size_t, void**, size_t, void*) { return 0; }
__attribute__((weak)) uint64_t tcmalloc_sampler[64];
}
