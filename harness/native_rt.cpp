// Native implementation of sx.h: replays one assignment of the symbolic inputs against the really compiled
// code.  argv[1] = file with "name value" lines (inputs in program order) and "!param value" lines.
// exit 0: ran to the end; 42: a check failed; 43: an assumption failed or the inputs ran out; 44: write in a
// read-only section; anything else: crash / sanitizer.
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <vector>
#include "sx.h"

template <class T> struct MallocAlloc {
  typedef T value_type;
  MallocAlloc() {}
  template <class U> MallocAlloc(MallocAlloc<U> const&) {}
  T* allocate(std::size_t n) { return (T*)std::malloc(n * sizeof(T)); }
  void deallocate(T* p, std::size_t) { std::free(p); }
  template <class U> bool operator==(MallocAlloc<U> const&) const { return true; }
  template <class U> bool operator!=(MallocAlloc<U> const&) const { return false; }
};
typedef std::map<std::uintptr_t, u64, std::less<std::uintptr_t>, MallocAlloc<std::pair<std::uintptr_t const, u64>>> Map;
static Map& ghosts() { static Map* m = new (std::malloc(sizeof(Map))) Map; return *m; }
static Map& blocks() { static Map* m = new (std::malloc(sizeof(Map))) Map; return *m; }
struct Input { char name[64]; u64 value; };
static Input g_in[65536]; static int g_nin = 0, g_pos = 0;
static Input g_par[256]; static int g_npar = 0;
static u64 g_checks = 0, g_digest = 1469598103934665603ull;
static bool g_running = false;

// optional page arena (-DRT_ARENA) so that read-only sections are enforced by the MMU
#ifdef RT_ARENA
static char* g_arena = nullptr; static std::size_t g_used = 0, g_ro = 0; static const std::size_t ARENA = std::size_t(1) << 28;
static void onSegv(int) { static const char m[] = "READONLY VIOLATION\n"; (void)!write(2, m, sizeof m - 1); _exit(44); }
static void* raw(std::size_t n) {
  if (!g_arena) { g_arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  n = (n + 15) & ~std::size_t(15); if (!n) n = 16;
  if (g_used + n > ARENA) abort();
  void* p = g_arena + g_used; g_used += n; return p;
}
static void unraw(void*) {}
#else
static void* raw(std::size_t n) { return std::malloc(n ? n : 1); }
static void unraw(void* p) { std::free(p); }
#endif
static void* alloc(std::size_t n, int tag) {
  void* p = raw(n); if (!p) abort();
#ifdef RT_ARENA
  std::memset(p, 0xA5, n);
#endif
  if (g_running) blocks()[(std::uintptr_t)p] = ((u64)n << 2) | (u64)tag;
  return p;
}
static void dealloc(void* p, int tag) {
  if (!p) return;
  auto it = blocks().find((std::uintptr_t)p);
  if (it != blocks().end()) {
    if ((int)(it->second & 3) != tag) { std::fprintf(stderr, "ALLOCATION FAMILY MISMATCH\n"); _exit(45); }
    auto lo = ghosts().lower_bound((std::uintptr_t)p), hi = ghosts().lower_bound((std::uintptr_t)p + (it->second >> 2));
    ghosts().erase(lo, hi); blocks().erase(it);
  } else if (g_running) { std::fprintf(stderr, "INVALID RELEASE\n"); _exit(45); }
  unraw(p);
}
void* operator new(std::size_t n) { return alloc(n, 1); }
void* operator new[](std::size_t n) { return alloc(n, 2); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return alloc(n, 1); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return alloc(n, 2); }
void operator delete(void* p) noexcept { dealloc(p, 1); }
void operator delete[](void* p) noexcept { dealloc(p, 2); }
void operator delete(void* p, std::size_t) noexcept { dealloc(p, 1); }
void operator delete[](void* p, std::size_t) noexcept { dealloc(p, 2); }
void operator delete(void* p, std::nothrow_t const&) noexcept { dealloc(p, 1); }

static u64 take(const char* name) {
  if (g_pos >= g_nin || std::strcmp(g_in[g_pos].name, name)) { std::printf("DIVERGED at input %d: code asks %s, file has %s\n", g_pos, name, g_pos < g_nin ? g_in[g_pos].name : "(end)"); std::fflush(stdout); _exit(43); }
  return g_in[g_pos++].value;
}
extern "C" {
u64 sx_sym(const char* name, int) { return take(name); }
u64 sx_range(const char* name, u64 lo, u64 hi) { u64 v = take(name); if (v < lo || v > hi) { std::printf("DIVERGED: %s out of range\n", name); std::fflush(stdout); _exit(43); } return v; }
bool sx_bool(const char* name) { return take(name) & 1; }
void sx_assume(bool c) { if (!c) { std::printf("ASSUMPTION FAILED\n"); std::fflush(stdout); _exit(43); } }
void sx_check(bool c, const char* msg) { if (!c) { std::printf("CHECK FAILED: %s\n", msg); std::fflush(stdout); _exit(42); } ++g_checks; }
u64 sx_split(u64 x) { return x; }
void sx_cover(const char*) {}
u64 sx_param(const char* name, u64 d) { for (int i = 0; i < g_npar; ++i) if (!std::strcmp(g_par[i].name, name)) return g_par[i].value; return d; }
void sx_gset(const void* p, u64 v) { if (v) ghosts()[(std::uintptr_t)p] = v; else ghosts().erase((std::uintptr_t)p); }
u64 sx_gget(const void* p) { auto it = ghosts().find((std::uintptr_t)p); return it == ghosts().end() ? 0 : it->second; }
void sx_readonly(bool on) {
#ifdef RT_ARENA
  if (on) { g_used = (g_used + 4095) & ~std::size_t(4095); g_ro = g_used; if (g_ro) mprotect(g_arena, g_ro, PROT_READ); }
  else if (g_ro) { mprotect(g_arena, g_ro, PROT_READ | PROT_WRITE); g_ro = 0; }
#elif defined(RT_STATICS)  // the library's static data, listed as address and size in the file named by SX_STATICS
  static std::vector<unsigned char> before; std::vector<unsigned char> now; unsigned long long a, z;
  if (FILE* f = std::fopen(std::getenv("SX_STATICS"), "r")) { while (std::fscanf(f, "%llx %llx", &a, &z) == 2) now.insert(now.end(), (unsigned char*)a, (unsigned char*)a + z); std::fclose(f); }
  if (on) before = now; else sx_check(before == now, "a read-only operation writes to static data of the library");
#else
  (void)on;
#endif
}
#ifdef RT_WORK
static u64 g_work = 0;
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() { ++g_work; }
u64 sx_work() { return g_work; }
#else
u64 sx_work() { return 0; }
#endif
u64 sx_heap_live() { return blocks().size(); }
u64 sx_block_size(const void* p) { auto it = blocks().find((std::uintptr_t)p); return it == blocks().end() ? 0 : it->second >> 2; }
void sx_trace(u64 v) { g_digest = (g_digest ^ v) * 1099511628211ull; }
}
extern "C" void ENTRY();
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  FILE* f = std::fopen(argv[1], "r"); if (!f) return 2;
  char name[64]; unsigned long long v;
  while (std::fscanf(f, "%63s %llu", name, &v) == 2) {
    if (name[0] == '!') { std::strcpy(g_par[g_npar].name, name + 1); g_par[g_npar++].value = v; }
    else if (g_nin < 65536) { std::strcpy(g_in[g_nin].name, name); g_in[g_nin++].value = v; }
  }
  std::fclose(f);
#ifdef RT_ARENA
  signal(SIGSEGV, onSegv);
#endif
  g_running = true;
  try { ENTRY(); } catch (...) { g_running = false; std::printf("EXCEPTION escapes the harness\n"); std::fflush(stdout); _exit(46); }
  g_running = false;
  std::printf("OK checks=%llu digest=%llu\n", (unsigned long long)g_checks, (unsigned long long)g_digest);
  std::fflush(stdout); _exit(0);
}
