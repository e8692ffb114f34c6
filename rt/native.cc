// Native replay runtime: the driver runs as an ordinary program against the real build,
// with the values of the solver's model popped in the order the driver asks for them.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <atomic>
#include <new>
struct V { std::string n; unsigned w; uint64_t v; };
static std::vector<V> vals;
struct Sh { std::atomic<int> turn; std::atomic<int> done; std::atomic<int> code; std::atomic<size_t> pos; std::atomic<size_t> brk; int n; };
static Sh* sh; static int myRank = 0; static bool forked = false; static int expectAbort = 0; static char* pool; static const size_t poolSize = 1u << 28;
static std::atomic<long> live{0};
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static void finish(int code) {
  fflush(stdout); fflush(stderr);
  if (forked) { int z = 0; sh->done.compare_exchange_strong(z, 1); if (z == 0) sh->code = code; }
  _exit(code);
}
static uint64_t pop(const char* name, unsigned w) {
  size_t p = sh->pos++;
  if (p >= vals.size()) { fprintf(stderr, "REPLAY: no value left for %s\n", name); return 0; }
  if (vals[p].n != name && vals[p].n != "const") { fprintf(stderr, "REPLAY: expected %s, the file has %s\n", name, vals[p].n.c_str()); finish(78); }
  return vals[p].v;
}
extern "C" {
uint8_t sym_u8(const char* n) { return pop(n, 8); }
uint16_t sym_u16(const char* n) { return pop(n, 16); }
uint32_t sym_u32(const char* n) { return pop(n, 32); }
uint64_t sym_u64(const char* n) { return pop(n, 64); }
float sym_f32(const char* n) { uint32_t v = pop(n, 32); float f; memcpy(&f, &v, 4); return f; }
double sym_f64(const char* n) { uint64_t v = pop(n, 64); double f; memcpy(&f, &v, 8); return f; }
bool sym_bool(const char* n) { return pop(n, 1) & 1; }
uint64_t sym_range(const char* n, uint64_t lo, uint64_t hi) { uint64_t v = pop(n, 64); if (v < lo || v > hi) finish(77); return v; }
uint64_t sym_choose(const char* n, uint64_t k) { uint64_t v = pop(n, 64); if (v >= k) finish(77); return v; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_buf(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = pop(nm, 8); }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); finish(77); } }
void sym_assert(bool c, const char* m) { if (!c) { printf("ASSERTION FAILED: %s\n", m); finish(42); } }
void sym_fail(const char* m) { if (expectAbort) finish(0); printf("FAILED: %s\n", m); finish(42); }
void sym_cover(const char* l) { if (getenv("SYM_VERBOSE")) printf("cover %s\n", l); }
void sym_bound(const char*) {}
void sym_end() { finish(0); }
void sym_expect_abort(int on) { expectAbort = on; }
void sym_print(const char* l, uint64_t v) { printf("[%d] %s %llu\n", myRank, l, (unsigned long long)v); }
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern int __asan_address_is_poisoned(void const volatile*);
uint64_t sym_room(void const* p) { char const* c = (char const*)p; uint64_t n = 0; while (n < (1ull << 26) && !__asan_address_is_poisoned(c + n)) n++; return n; }
#else
uint64_t sym_room(void const*) { return ~0ull; }
#endif
uint64_t sym_live_allocs() { return (uint64_t)live.load(); }
int sym_is_symx() { return 0; }
static void waitTurn() { for (unsigned k = 0; sh->turn != myRank; k++) { if (sh->done) _exit(sh->code); if (k > 50) usleep(20); } }
int symx_fork(int n) {
  sh->n = n; fflush(stdout); forked = true;
  for (int i = 1; i < n; i++) { pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); myRank = i; waitTurn(); return i; } }
  return 0;
}
void symx_switch(int r) { sh->turn = r; waitTurn(); }
void* symx_shared_alloc(size_t n) { size_t b = sh->brk.fetch_add((n + 63) & ~size_t(63)); if (b + n > poolSize) { fprintf(stderr, "REPLAY: shared pool exhausted\n"); finish(79); } memset(pool + b, 0, n); return pool + b; }
void symx_shared_free(void*) {}
}
static void onAbort(int sig) { if (expectAbort) { finish(0); } printf("ABORTED by signal %d\n", sig); signal(sig, SIG_DFL); if (forked) { int z = 0; sh->done.compare_exchange_strong(z, 1); if (!z) sh->code = 43; } finish(43); }
int main(int argc, char** argv) {
  sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Sh(); sh->turn = 0; sh->pos = 0;
  pool = (char*)mmap(nullptr, poolSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (argc > 1) { FILE* f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 80; } char line[1024]; while (fgets(line, sizeof line, f)) { if (line[0] == '#' || line[0] == '\n') continue; char* e1 = strrchr(line, ' '); if (!e1) continue; *e1 = 0; char* e2 = strrchr(line, ' '); if (!e2) continue; *e2 = 0; vals.push_back({line, (unsigned)atoi(e2 + 1), strtoull(e1 + 1, nullptr, 10)}); } fclose(f); }
  signal(SIGABRT, onAbort);
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t) { live++; }, [](const volatile void* p) { if (p) live--; });
  symx_main();
  finish(0);
}
