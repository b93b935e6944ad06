// Native implementation of symh.h: replays one or more recorded input
// sequences against the natively compiled harness.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <exception>
#include <typeinfo>
#include <fcntl.h>

extern "C" void harness_main();
static uint64_t* g_in;
static size_t g_n, g_pos;
static uint64_t g_digest = 1469598103934665603ull, g_nobs;
static char** g_params;
static int g_nparams;
static long g_live;
static unsigned char g_fill;
static bool g_in_harness;
static void done(int rc, const char* kind, const char* msg) {
  printf("END rc=%d digest=%llu nobs=%llu used=%zu/%zu %s: %s\n", rc, (unsigned long long)g_digest, (unsigned long long)g_nobs, g_pos, g_n, kind, msg);
  fflush(stdout);
  _exit(rc);
}
struct Rec { void* p; size_t size, align; int form; };
static Rec* g_tab;
static const size_t TAB = 1 << 18;
static Rec* slot(void* p, bool ins) {
  if (!g_tab) g_tab = (Rec*)mmap(nullptr, sizeof(Rec) * TAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  size_t h = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 40 & (TAB - 1);
  Rec* tomb = nullptr;
  for (size_t i = 0; i < TAB; i++) {
    Rec* r = &g_tab[(h + i) & (TAB - 1)];
    if (r->p == p) return r;
    if (r->p == (void*)1 && !tomb) tomb = r;
    if (!r->p) return ins ? (tomb ? tomb : r) : nullptr;
  }
  return nullptr;
}
static long g_new_fail;
extern "C" uint64_t symh_new_fail(uint64_t n) { uint64_t left = (uint64_t)g_new_fail; g_new_fail = (long)n; return left; }
static void* getmem(size_t n, size_t al, int form) {
  if (g_in_harness && g_new_fail > 0 && --g_new_fail == 0) throw std::bad_alloc();
  if (n > (1ull << 34)) throw std::bad_alloc();
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_in_harness) {
    memset(p, g_fill, n);
    Rec* r = slot(p, true);
    *r = Rec{p, n, al, form};
    g_live++;
  }
  return p;
}
static void putmem(void* p, size_t n, size_t al, int form) {
  if (!p) return;
  Rec* r = slot(p, false);
  if (r) {
    if (r->form != form) done(1, "memory", "mismatched allocation and deallocation functions");
    if (n != ~(size_t)0 && n != r->size) done(1, "memory", "sized delete with wrong size");
    if (al && r->align > 16 && al != r->align) done(1, "memory", "aligned delete with wrong alignment");
    if (!al && r->align > 16) done(1, "memory", "over-aligned block freed without alignment");
    r->p = (void*)1;
    g_live--;
  } else if (g_in_harness) {
    done(1, "memory", "bad free");
  }
  free(p);
}
void* operator new(size_t n) { return getmem(n, 16, 1); }
void* operator new[](size_t n) { return getmem(n, 16, 2); }
void* operator new(size_t n, std::align_val_t a) { return getmem(n, (size_t)a, 1); }
void* operator new[](size_t n, std::align_val_t a) { return getmem(n, (size_t)a, 2); }
void operator delete(void* p) noexcept { putmem(p, ~(size_t)0, 0, 1); }
void operator delete[](void* p) noexcept { putmem(p, ~(size_t)0, 0, 2); }
void operator delete(void* p, size_t n) noexcept { putmem(p, n, 0, 1); }
void operator delete[](void* p, size_t n) noexcept { putmem(p, n, 0, 2); }
void operator delete(void* p, std::align_val_t a) noexcept { putmem(p, ~(size_t)0, (size_t)a, 1); }
void operator delete[](void* p, std::align_val_t a) noexcept { putmem(p, ~(size_t)0, (size_t)a, 2); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { putmem(p, n, (size_t)a, 1); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { putmem(p, n, (size_t)a, 2); }

static uint64_t nextIn() {
  if (g_pos >= g_n) { g_pos++; return 0; }
  return g_in[g_pos++];
}
extern "C" {
uint64_t symh_sym(uint64_t bits) { uint64_t v = nextIn(); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t symh_choice(uint64_t n) { uint64_t v = nextIn(); if (v >= n) done(77, "replay", "choice out of range"); return v; }
void symh_assume(uint64_t c) { if (!c) done(77, "replay", "assumption not met"); }
void symh_assert(uint64_t c, const char* m) { if (!c) done(1, "assert", m); }
void symh_cover(const char*) {}
void symh_observe(uint64_t v) {
  g_nobs++;
  for (int i = 0; i < 8; i++) { g_digest ^= (v >> (8 * i)) & 255; g_digest *= 1099511628211ull; }
}
uint64_t symh_param(const char* name, uint64_t d) {
  size_t l = strlen(name);
  for (int i = 0; i < g_nparams; i++)
    if (!strncmp(g_params[i], name, l) && g_params[i][l] == '=') return strtoull(g_params[i] + l + 1, 0, 0);
  return d;
}
uint64_t symh_concrete(uint64_t v) { return v; }
uint64_t symh_heap_live() { return (uint64_t)g_live; }
struct Reg { void* p; size_t n; };
static Reg g_reg[256];
void* symh_region(uint64_t len, uint64_t al) {
  size_t tot = len + al + 8192;
  char* p = (char*)mmap(nullptr, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uintptr_t a = ((uintptr_t)p + 4096 + al - 1) / al * al;
  if (mprotect((void*)a, (len + 4095) / 4096 * 4096, PROT_READ | PROT_WRITE)) abort();
  for (auto& r : g_reg) if (!r.p) { r = {(void*)a, len}; break; }
  return (void*)a;
}
void symh_region_free(void* p) {
  for (auto& r : g_reg)
    if (r.p == p) { mprotect(p, (r.n + 4095) / 4096 * 4096, PROT_NONE); r.p = (void*)1; return; }
  done(1, "memory", "unmapping something that is not a mapped region");
}
static uint64_t g_farLo, g_farHi;
static void onFault(int, siginfo_t* si, void*) {
  uint64_t a = (uint64_t)si->si_addr;
  if (a >= g_farLo && a < g_farHi &&
      mmap((void*)(a & ~4095ull), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != MAP_FAILED) return;
  done(1, "memory", "access to unmapped memory");
}
void symh_far(uint64_t lo, uint64_t hi) {
  g_farLo = lo;
  g_farHi = hi;
  struct sigaction sa = {};
  sa.sa_sigaction = onFault;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
}
void symh_stop() { done(0, "ok", "stopped"); }
}
static void onTerminate() { done(1, "exception", "uncaught exception or std::terminate"); }
static void runOne() {
  std::set_terminate(onTerminate);
  g_in_harness = true;
  g_live = 0;
  harness_main();
  g_in_harness = false;
  if (g_live) done(1, "leak", "heap block never freed");
  done(0, "ok", "completed");
}
// usage: prog FILE TIMEOUT FILL [param=value...]; each line of FILE is one case
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r");
  int tmo = atoi(argv[2]);
  g_fill = (unsigned char)strtoul(argv[3], 0, 0);
  g_params = argv + 4;
  g_nparams = argc - 4;
  char* line = nullptr;
  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    g_in = (uint64_t*)malloc(8 * (strlen(line) + 1));
    g_n = g_pos = 0;
    for (char* t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) g_in[g_n++] = strtoull(t, 0, 10);
    fflush(stdout);
    pid_t c = fork();
    if (!c) {
      alarm((unsigned)tmo);
      runOne();
    }
    int st = 0;
    waitpid(c, &st, 0);
    if (WIFSIGNALED(st)) printf("END rc=%d digest=0 nobs=0 used=0/0 signal: %s\n", WTERMSIG(st) == SIGALRM ? 3 : 1, strsignal(WTERMSIG(st)));
    else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1 && WEXITSTATUS(st) != 77) printf("END rc=1 digest=0 nobs=0 used=0/0 sanitizer: exit %d\n", WEXITSTATUS(st));
    fflush(stdout);
    free(g_in);
  }
  return 0;
}
