// Interface between harnesses and the symbolic executor (engine/) or the
// native replay runtime (harness/native.cc).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t verif_u8(const char* name);
uint16_t verif_u16(const char* name);
uint32_t verif_u32(const char* name);
uint64_t verif_u64(const char* name);
uint64_t verif_range(const char* name, uint64_t lo, uint64_t hi);   // inclusive
void verif_symbolic(void* p, size_t n, const char* name);
void verif_assume(bool c);
void verif_assert(bool c, const char* msg);
void verif_reach(const char* label);
void verif_observe(uint64_t v);
uint64_t verif_concretize(uint64_t v);
uint64_t verif_choice(uint64_t n, const char* name);
int64_t verif_param(int i);
void verif_map(void* p, size_t n);     // fresh zeroed memory at p
void verif_unmap(void* p, size_t n);
bool verif_is_mapped(const void* p, size_t n);
void verif_merge(void (*fn)(void*), void* arg);
int verif_thread(void (*fn)(void*), void* arg);
void verif_join_all();
void verif_yield();
int verif_cur_thread();
void verif_expect_crash(int on);
void verif_end_path() __attribute__((noreturn));
void verif_crash() __attribute__((noreturn));
bool verif_native();
void verif_note(const char* s, uint64_t v);
void verif_atomic_region(int on);
void harness_main();
}
template <class F>
static inline void verif_merged(F f) {
  verif_merge([](void* p) { (*static_cast<F*>(p))(); }, &f);
}
#define VSTR2(x) #x
#define VSTR(x) VSTR2(x)
#define VASSERT(c) verif_assert((c), #c)
