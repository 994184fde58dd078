// Native replay runtime: runs harness_main() against the compiled code with
// the inputs of one case file. Used to confirm counterexamples and to compare
// sampled paths of the symbolic executor with real executions.
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include "verif.h"

static std::map<std::string, uint64_t>* g_in;
static std::map<std::string, int>* g_occ;
static std::vector<int64_t>* g_params;
static int g_expect = 0;
static char g_out[1 << 20];
static size_t g_n = 0;
static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;
static void put(const char* s) {
  size_t l = strlen(s);
  if (g_n + l < sizeof(g_out)) { memcpy(g_out + g_n, s, l); g_n += l; }
}
static void finish(int code) __attribute__((noreturn));
static void finish(int code) {
  size_t o = 0;
  while (o < g_n) { ssize_t r = write(1, g_out + o, g_n - o); if (r <= 0) break; o += r; }
  _exit(code);
}
static void onsig(int s) {
  char b[64];
  if (s == SIGALRM) { put("TIMEOUT\n"); finish(14); }
  if (g_expect) { put("END expected-crash\n"); finish(0); }
  snprintf(b, sizeof b, "CRASH signal %d\n", s);
  put(b);
  finish(11);
}
static uint64_t in(const char* n, uint64_t dflt = 0) {
  pthread_mutex_lock(&g_mu);
  std::string k = n;
  int o = (*g_occ)[k]++;
  k += "#" + std::to_string(o);
  auto it = g_in->find(k);
  uint64_t r = it == g_in->end() ? dflt : it->second;
  pthread_mutex_unlock(&g_mu);
  return r;
}
// ---- threads: one runs at a time, handing over where the case says so
struct T { pthread_t p; sem_t s; bool done = false, blocked = false, joining = false, schedDone = false; void (*f)(void*); void* a; };
static std::vector<T*>* g_t;
static thread_local int g_me = 0;
static int g_region = 0;
static void handTo(int t) {
  int me = g_me;
  if (t == me) return;
  sem_post(&(*g_t)[t]->s);
  if (!(*g_t)[me]->done) sem_wait(&(*g_t)[me]->s);
}
static bool runnable(int i) { T* t = (*g_t)[i]; return !t->done && !t->blocked && !t->joining; }
static void choose(int) {
  int t = (int)in("sched", g_me);
  if (t < 0 || t >= (int)g_t->size() || (*g_t)[t]->done) { put("BADSCHED\n"); finish(15); }
  (*g_t)[t]->schedDone = true;
  handTo(t);
}
static int g_maxPreempt = 2, g_preempts = 0;
static void switchAway() {
  int n = 0;
  for (int i = 0; i < (int)g_t->size(); i++) if (i != g_me && runnable(i)) n++;
  if (!n) {
    bool others = false;
    for (T* t : *g_t) if (!t->done && !t->joining) others = true;
    if (!others) for (int i = 0; i < (int)g_t->size(); i++) { T* t = (*g_t)[i]; if (t->joining && !t->done) { t->joining = false; handTo(i); return; } }
    put("DEADLOCK\n");
    finish(12);
  }
  choose(0);
}
static void* tmain(void* p) {
  g_me = (int)(intptr_t)p;
  T* t = (*g_t)[g_me];
  sem_wait(&t->s);
  t->f(t->a);
  t->done = true;
  for (int i = 0; i < (int)g_t->size(); i++) if (i != g_me) (*g_t)[i]->blocked = false;
  switchAway();
  return nullptr;
}
extern "C" {
void verif_sched_point() {
  if (g_t->size() < 2 || g_region) return;
  T* t = (*g_t)[g_me];
  if (t->schedDone) { t->schedDone = false; return; }
  int n = 0;
  if (g_preempts < g_maxPreempt) for (int i = 0; i < (int)g_t->size(); i++) if (i != g_me && runnable(i)) n++;
  if (!n) return;
  int me = g_me, to = (int)in("sched", g_me);
  if (to < 0 || to >= (int)g_t->size() || (*g_t)[to]->done) { put("BADSCHED\n"); finish(15); }
  if (to != me) g_preempts++;
  (*g_t)[to]->schedDone = true;
  handTo(to);
  t->schedDone = false;
}
void verif_sched_wrote() {
  if (g_t->size() < 2) return;
  for (int i = 0; i < (int)g_t->size(); i++) if (i != g_me) (*g_t)[i]->blocked = false;
}
int verif_thread(void (*fn)(void*), void* a) {
  T* t = new T;
  sem_init(&t->s, 0, 0);
  t->f = fn; t->a = a;
  g_t->push_back(t);
  int id = g_t->size() - 1;
  pthread_create(&t->p, nullptr, tmain, (void*)(intptr_t)id);
  return id;
}
void verif_join_all() {
  int live = 0;
  for (T* t : *g_t) if (!t->done) live++;
  if (live <= 1) return;
  (*g_t)[g_me]->joining = true;
  switchAway();
}
void verif_spin_wait(const void*) {
  if (g_t->size() < 2) { put("DEADLOCK\n"); finish(12); }
  (*g_t)[g_me]->blocked = true;
  switchAway();
}
void verif_yield() {
  if (g_t->size() < 2) return;
  int n = 0;
  for (int i = 0; i < (int)g_t->size(); i++) if (i != g_me && runnable(i)) n++;
  if (!n) return;
  choose(0);
}
int verif_cur_thread() { return g_me; }
void verif_atomic_region(int on) { g_region += on ? 1 : -1; }

uint8_t verif_u8(const char* n) { return in(n); }
uint16_t verif_u16(const char* n) { return in(n); }
uint32_t verif_u32(const char* n) { return in(n); }
uint64_t verif_u64(const char* n) { return in(n); }
uint64_t verif_range(const char* n, uint64_t lo, uint64_t hi) {
  uint64_t v = in(n, lo);
  if (v < lo || v > hi) { put("ASSUME\n"); finish(13); }
  return v;
}
void verif_symbolic(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = in(nm); }
void verif_assume(bool c) { if (!c) { put("ASSUME\n"); finish(13); } }
void verif_assert(bool c, const char* m) { if (!c) { put("ASSERT "); put(m); put("\n"); finish(10); } }
void verif_reach(const char*) {}
void verif_observe(uint64_t v) { char b[64]; snprintf(b, sizeof b, "O %llu\n", (unsigned long long)v); put(b); }
uint64_t verif_concretize(uint64_t v) { return v; }
uint64_t verif_choice(uint64_t n, const char* nm) { uint64_t v = in(nm); if (v >= n) { put("ASSUME\n"); finish(13); } return v; }
int64_t verif_param(int i) { return i < (int)g_params->size() ? (*g_params)[i] : 0; }
void verif_map(void* p, size_t n) {
  uintptr_t a = (uintptr_t)p & ~4095ul, e = ((uintptr_t)p + n + 4095) & ~4095ul;
  void* r = mmap((void*)a, e - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (r != (void*)a) { put("MAPFAIL\n"); finish(16); }
}
void verif_unmap(void* p, size_t n) {
  uintptr_t a = ((uintptr_t)p + 4095) & ~4095ul, e = ((uintptr_t)p + n) & ~4095ul;
  if (e > a) mmap((void*)a, e - a, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
}
bool verif_is_mapped(const void* p, size_t n) {
  static int fd[2] = {-1, -1};
  if (fd[0] < 0 && pipe(fd)) return true;
  uintptr_t a = (uintptr_t)p, e = a + n;
  for (int i = 0; a < e && i < 4096; i++, a = (a & ~4095ul) + 4096) {
    char c;
    if (write(fd[1], (const void*)a, 1) != 1 || read(fd[0], &c, 1) != 1) return false;
  }
  return true;
}
void verif_merge(void (*f)(void*), void* a) { f(a); }
void verif_expect_crash(int on) { g_expect = on; }
void verif_end_path() { put("END\n"); finish(0); }
void verif_crash() { onsig(SIGABRT); finish(11); }
bool verif_native() { return true; }
void verif_note(const char*, uint64_t) {}
__attribute__((weak)) int verif_vformat(char* b, size_t n, const char*, size_t, const void*, size_t) { if (n) b[0] = 0; return 0; }
__attribute__((weak)) void verif_sink_append(void*, const char*, size_t) {}
}
extern "C" __attribute__((weak)) void verif_run_ctors();
int main(int argc, char** argv) {
  g_in = new std::map<std::string, uint64_t>;
  g_occ = new std::map<std::string, int>;
  g_params = new std::vector<int64_t>;
  g_t = new std::vector<T*>;
  T* m = new T;
  sem_init(&m->s, 0, 0);
  g_t->push_back(m);
  FILE* f = fopen(argv[1], "r");
  if (!f) return 2;
  char tag[8], name[256];
  unsigned long long v;
  char line[512];
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "I %255s %llu", name, &v) == 2) (*g_in)[name] = v;
    else if (sscanf(line, "P %llu", &v) == 1) g_params->push_back((int64_t)v);
    else if (sscanf(line, "M %llu", &v) == 1) g_maxPreempt = (int)v;
    (void)tag;
  }
  fclose(f);
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = onsig;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);
  alarm(60);
  if (verif_run_ctors) verif_run_ctors();
  harness_main();
  put("END\n");
  finish(0);
}
