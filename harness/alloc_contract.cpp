// C20, C25: allocator objects. WHICH: 0 HugePageAllocator, 1 PolicyBased with
// TwoPoolPolicy, 2 MultiSizeHugePageAllocator. A few handles are copied, moved,
// rebound, assigned, destroyed and used in every order, against a record of
// which pool each handle and each block belongs to.
#include "pool.h"
#include "stl_rt.h"
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
using namespace kressler::fast_containers;
#ifndef ALGN
#define ALGN 8
#endif
#ifndef SZ
#define SZ 24
#endif
struct alignas(ALGN) T { unsigned char b[SZ]; };
struct U { uint64_t w[5]; };
#if WHICH == 0
using A = HugePageAllocator<T>;
using B = HugePageAllocator<U>;
static A make() { return A(symh::param("init", 4096), false, symh::param("growth", 4096)); }
constexpr size_t WANT = ALGN > 64 ? ALGN : 64;
#elif WHICH == 1
using A = PolicyBasedHugePageAllocator<T, TwoPoolPolicy>;
using B = PolicyBasedHugePageAllocator<U, TwoPoolPolicy>;
static A make() {
  auto l = std::make_shared<HugePagePool>(symh::param("init", 4096), false, symh::param("growth", 4096));
  auto i = std::make_shared<HugePagePool>(symh::param("init", 4096), false, symh::param("growth", 4096));
  return A(TwoPoolPolicy(l, i));
}
constexpr size_t WANT = ALGN > 64 ? ALGN : 64;
#else
using A = MultiSizeHugePageAllocator<T>;
using B = MultiSizeHugePageAllocator<U>;
static A make() { return make_multi_size_hugepage_allocator<T>(symh::param("init", 4096), false, symh::param("growth", 4096)); }
constexpr size_t WANT = ALGN;
#endif
constexpr size_t NH = 3;
static A* h[NH];        // handles
static size_t pool[NH]; // the pool each one shares
static size_t g_pools;
struct Own { T* p; size_t pool, n; };
static Own own[16];
static size_t nown;
static bool pool_held(size_t id) { for (size_t i = 0; i < NH; i++) if (h[i] && pool[i] == id) return true; return false; }
static void drop_blocks(size_t id) {  // blocks go with their pool
  if (pool_held(id)) return;
  for (size_t i = 0; i < nown; i++)
    if (own[i].pool == id) {
      for (size_t k = 0; k < g_nblk; k++) if (g_blk[k].p == (uint64_t)own[i].p) g_blk[k].live = false;
      own[i--] = own[--nown];
    }
}
static void compare() {
  for (size_t i = 0; i < NH; i++)
    for (size_t j = 0; j < NH; j++) {
      if (!h[i] || !h[j]) continue;
      bool same = pool[i] == pool[j];
      CHECK_MSG((*h[i] == *h[j]) == same && (*h[i] != *h[j]) == !same, "equality is not sharing of the pool");
    }
}
// takes n objects; n may be anything
static void take(size_t i, uint64_t n, bool keep) {
  T* p = nullptr;
  int threw = 0;
  size_t r0 = g_refused;
  try { p = h[i]->allocate(n); }
  catch (const std::bad_alloc&) { threw = 1; }
  catch (const std::invalid_argument&) { threw = 2; }
  if (n == 0) { CHECK_MSG(!threw && p == nullptr, "zero objects is not null"); return; }
#if WHICH != 2
  if (n != 1) { CHECK_MSG(threw == 2, "several objects accepted"); COVER("count refused"); return; }
#else
  if (threw) {
    COVER("count refused");
    CHECK_MSG(threw == 1 && (g_refused > r0 || n > TOP / 2 / sizeof(T)), "refused though memory was granted");
    return;
  }
  CHECK_MSG(n <= ~0ull / sizeof(T), "a count whose size is not representable is accepted");
#endif
  CHECK_MSG(!threw || g_refused > r0, "refused though memory was granted");
  if (threw) return;
  CHECK_MSG(p != nullptr, "null for a request of some objects");
  COVER("takes a block");
  uint64_t bytes = n * sizeof(T);
  block_ok((uint64_t)p, bytes, WANT);
  size_t b = block_add((uint64_t)p, bytes, WANT);
  if (keep) { g_blk[b].tag = symh_sym(64); g_blk[b].marked = true; *(volatile uint64_t*)p = g_blk[b].tag; }
  if (keep) own[nown++] = Own{p, pool[i], n};
}
static void give(size_t i, size_t k) {
  T* p = own[k].p;
  for (size_t b = 0; b < g_nblk; b++)
    if (g_blk[b].live && g_blk[b].p == (uint64_t)p) {
      if (g_blk[b].marked) CHECK_MSG(*(volatile uint64_t*)p == g_blk[b].tag, "a block in use was changed");
      g_blk[b].live = false;
    }
  h[i]->deallocate(p, own[k].n);
  own[k] = own[--nown];
  COVER("gives back");
}
extern "C" void harness_main() {
  size_t mode = symh::param("mode", 0);
  if (mode == 1) {  // any count, mappings at symbolic addresses
    g_fict = true;
    symh_far(FLO, FHI);
    h[0] = new A(make());
    g_may_refuse = symh::param("refuse", 0);
    pool[0] = g_pools++;
    uint64_t n = symh_sym(64);
    take(0, n, false);
#if WHICH != 2
    uint64_t m = symh_sym(64);
    int threw = 0;
    T* none = nullptr;
    try { h[0]->deallocate(none, m); } catch (const std::invalid_argument&) { threw = 1; }
    CHECK_MSG(!threw, "giving back null is refused");
    try { h[0]->deallocate((T*)FLO, m); } catch (const std::invalid_argument&) { threw = 1; }
    CHECK_MSG(threw == (m > 1), "giving back several objects is accepted, or one is refused");
#else
    h[0]->deallocate(nullptr, n);
    h[0]->deallocate((T*)FLO, 0);
#endif
    delete h[0];
    all_unmapped();
    return;
  }
  g_fict = symh::param("far", 0);
  if (g_fict) symh_far(FLO, FHI);
  h[0] = new A(make());
  pool[0] = g_pools++;
  size_t nops = symh::param("ops", 4), mask = symh::param("mask", 0x3ff);
  size_t ops[12], no = 0;
  for (size_t i = 0; i < 12; i++) if (mask >> i & 1) ops[no++] = i;
  for (size_t q = 0; q < nops; q++) {
    size_t i = symh::choice(NH), j = symh::choice(NH);
    size_t op = ops[symh::choice(no)];
    size_t gone = ~0ull;
    if (op <= 4 && !h[j]) symh_stop();       // needs a source
    if (op <= 2 && h[i]) symh_stop();        // needs an empty slot
    if (op >= 3 && op <= 7 && !h[i]) symh_stop();
    if (op >= 5 && op <= 6 && j) symh_stop();  // j unused
    switch (op) {
      case 0: h[i] = new A(*h[j]); pool[i] = pool[j]; COVER("copy"); break;
      case 1: h[i] = new A(std::move(*h[j])); pool[i] = pool[j]; COVER("move"); break;
      case 2: {  // through another element type and back
        B b(*h[j]);
        const A& src = *h[j];
#if WHICH == 0
        CHECK_MSG(!(b == src) && b != src && !(src == b), "a rebound HugePageAllocator has a pool of its own");
        auto* x = b.allocate(1);
        CHECK(x != nullptr && ((uint64_t)x & 63) == 0);
        b.deallocate(x, 1);
        B b2(b);
        CHECK(b2 == b);
        h[i] = new A(b);
        pool[i] = g_pools++;
#else
        CHECK_MSG(b == src && !(b != src) && src == b, "a rebound copy shares the pool");
        auto* x = b.allocate(1);
        CHECK(x != nullptr);
        B b2(src);
        CHECK(b2 == b);
        b2.deallocate(x, 1);
        h[i] = new A(b);
        pool[i] = pool[j];
#endif
        COVER("rebind");
        break;
      }
      case 3: gone = pool[i]; *h[i] = *h[j]; pool[i] = pool[j]; COVER("copy assign"); break;
      case 4: gone = pool[i]; *h[i] = std::move(*h[j]); pool[i] = pool[j]; COVER("move assign"); break;
      case 5: gone = pool[i]; delete h[i]; h[i] = nullptr; COVER("destroy"); break;
      case 6: take(i, WHICH == 2 ? 1 + symh::choice(3) : 1, true); break;
      case 7: {
        if (j >= nown || own[j].pool != pool[i]) symh_stop();
        give(i, j);
        break;
      }
      case 8: if (h[i] || j) symh_stop(); h[i] = new A(make()); pool[i] = g_pools++; COVER("new pool"); break;
      default: if (!h[i] || j) symh_stop(); take(i, 0, false); h[i]->deallocate(nullptr, 1); break;
    }
    if (gone != ~0ull) drop_blocks(gone);
    compare();
    for (size_t b = 0; b < g_nblk; b++)
      if (g_blk[b].live && g_blk[b].marked) CHECK_MSG(*(volatile uint64_t*)g_blk[b].p == g_blk[b].tag, "a block in use was changed");
  }
  // every handle, moved-from or copied-from, still works
  for (size_t i = 0; i < NH; i++) if (h[i]) { take(i, 1, true); COVER("still usable"); }
#ifdef ALLOCATOR_STATS
#if WHICH == 0
  for (size_t i = 0; i < NH; i++) if (h[i]) {
    size_t n = 0;
    for (size_t k = 0; k < nown; k++) n += own[k].pool == pool[i];
    CHECK_MSG(h[i]->get_current_usage() == n * sizeof(T) && h[i]->get_allocations() - h[i]->get_deallocations() == n, "bytes in use");
  }
#endif
#endif
  while (nown) {
    size_t i = 0;
    while (!h[i] || pool[i] != own[0].pool) i++;
    give(i, 0);
  }
  for (size_t i = 0; i < NH; i++) { delete h[i]; h[i] = nullptr; }
  all_unmapped();
}
