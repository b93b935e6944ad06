// C19-C22: HugePagePool with arbitrary pool sizes, request sizes, alignments and
// mapping failures. Mapped addresses are arbitrary; nothing lies behind them.
#include "pool.h"
#include <fast_containers/hugepage_pool.hpp>
using namespace kressler::fast_containers;
extern "C" void harness_main() {
  g_fict = true;
  uint64_t init = symh_sym(64), growth = symh_sym(64);
  bool want_huge = symh::choice(2);  // refused here; granted in pool_mem
  g_may_refuse = symh::param("refuse", 1);
  uint64_t als = symh::param("als", 1);  // bit k: alignment 2^k
  HugePagePool* pool = nullptr;
  size_t r0 = g_refused;
  symh_new_fail(symh::param("newfail", 0) ? symh::choice(4) : 0);
  try {
    pool = new HugePagePool(init, want_huge, growth);
  } catch (const std::bad_alloc&) {
    COVER("construction fails");
    bool nf = symh_new_fail(0) == 0 && symh::param("newfail", 0);
    CHECK_MSG(nf || g_refused > r0, "construction fails though memory was granted");
  }
  symh_new_fail(0);
  if (!pool) { all_unmapped(); return; }
  CHECK(!pool->using_hugepages());
  CHECK(pool->initial_size() == init && pool->growth_size() == growth);
  CHECK_MSG(g_nmap == 1 && pool->bytes_remaining() == g_map[0].len && g_map[0].len >= init, "remaining capacity of a new pool");
  uint64_t n = 0, total = 0, grown = 0;
  for (size_t q = 0; q < symh::param("ops", 3); q++) {
    uint64_t bytes = symh_sym(64);
    size_t pick = symh::choice(__builtin_popcountll(als)), sh = 0;
    for (uint64_t m = als;; m >>= 1, sh++) if ((m & 1) && pick-- == 0) break;
    uint64_t al = 1ull << sh;
    uint64_t rem = pool->bytes_remaining();
    size_t m0 = g_nmap;
    r0 = g_refused;
    void* vp = nullptr;
    bool threw = false;
    size_t nf = symh::param("newfail", 0) ? symh::choice(3) : 0;
    symh_new_fail(nf);
    try {
      vp = pool->allocate(bytes, al);
    } catch (const std::bad_alloc&) { threw = true; }
    bool fired = nf && symh_new_fail(0) == 0;
    symh_new_fail(0);
    if (threw) {
      COVER("request refused");
      CHECK_MSG(fired || g_refused > r0 || growth == 0 || bytes > TOP / 2, "request refused though memory was granted");
      CHECK_MSG(pool->bytes_remaining() == rem, "a refused request changes the remaining capacity");
      continue;
    }
    if (bytes == 0) { CHECK(vp == nullptr && pool->bytes_remaining() == rem && g_nmap == m0); continue; }
    CHECK(vp != nullptr);
    uint64_t p = (uint64_t)vp;
    block_ok(p, bytes, al);
    block_add(p, bytes, al);
    if (g_nmap > m0) {
      COVER("grows");
      CHECK_MSG(g_nmap == m0 + 1, "more than one region for one request");
      grown++;
      // the old region could not serve it
      uint64_t end = 0;
      bool fit = rem >= bytes && rem - bytes >= al - 1;
      CHECK_MSG(!fit, "grows though the request fits");
      (void)end;
      CHECK_MSG(g_map[m0].len >= growth, "a further region is smaller than the growth size");
      CHECK_MSG(pool->bytes_remaining() == g_map[m0].base + g_map[m0].len - (p + bytes), "remaining capacity after growth");
    } else {
      COVER("served from the region");
      bool in = false;
      for (size_t i = 0; i < g_nmap; i++) in |= pool->bytes_remaining() == g_map[i].base + g_map[i].len - (p + bytes);
      CHECK_MSG(in, "remaining capacity is not what is left");
      CHECK_MSG(rem - pool->bytes_remaining() >= bytes && rem - pool->bytes_remaining() < bytes + al, "remaining capacity falls by more or less than the request and its padding");
    }
    n++;
    total += bytes;
#ifdef ALLOCATOR_STATS
    CHECK_MSG(pool->get_allocations() == n && pool->get_bytes_allocated() == total && pool->get_current_usage() == total && pool->get_peak_usage() == total, "allocation counters");
    CHECK_MSG(pool->get_growth_events() == grown && pool->get_deallocations() == 0, "growth counter");
#endif
  }
#ifdef ALLOCATOR_STATS
  CHECK(pool->get_growth_events() == grown && pool->get_allocations() == n);
#endif
  symh::observe(n);
  delete pool;
  all_unmapped();
}
