// C24 (with C19-C22 for the multi-size pool): requests of arbitrary sizes routed
// by size class, blocks given back in every order, failing mappings.
#include "pool.h"
#include "stl_rt.h"
#include <fast_containers/multi_size_hugepage_pool.hpp>
using namespace kressler::fast_containers;
struct Rec { uint64_t p, bytes; };
static Rec g_fr[64];
static size_t g_nfr;
static uint64_t g_cls[64];
static size_t g_ncls;
extern "C" void harness_main() {
  uint64_t lo = symh::param("lo", 1), hi = symh::param("hi", 2500), als = symh::param("als", 8);
  uint64_t init = symh::param("init", 8192), growth = symh::param("growth", 8192), script = symh::param("script", 0);
  bool failing = symh::param("newfail", 0), fill = symh::param("fill", 1);
  g_huge_ok = symh::param("hugeok", 0);
  g_may_refuse = symh::param("refuse", 0);
  auto* pool = new MultiSizeHugePagePool(init, g_huge_ok && symh::choice(2), growth);
  size_t nops = symh::param("ops", 4);
  for (size_t q = 0; q < nops; q++) {
    size_t live[64], nl = 0;
    for (size_t i = 0; i < g_nblk; i++) if (g_blk[i].live) live[nl++] = i;
    size_t step = script >> (4 * q) & 15;  // 0: anything, 1: a request, 2: give one back
    size_t what = step == 1 ? 0 : step == 2 && nl ? 1 + symh::choice(nl) : symh::choice(1 + nl);
    size_t m0 = g_nmap, c0 = pool->active_size_classes();
    if (what > 0) {
      Block& b = g_blk[live[what - 1]];
      b.live = false;
      g_fr[g_nfr++] = Rec{b.p, b.bytes};
      symh_new_fail(failing ? 1 : 0);
      pool->deallocate((void*)b.p, b.bytes);
      symh_new_fail(0);
      CHECK_MSG(g_nmap == m0 && pool->active_size_classes() == c0, "giving a block back changes the pools");
      COVER("gives back");
    } else {
      uint64_t bytes = symh_sym(64);
      symh::assume((bytes >= lo) & (bytes <= hi));
      size_t pick = symh::choice(__builtin_popcountll(als)), sh = 0;
      for (uint64_t m = als;; m >>= 1, sh++) if ((m & 1) && pick-- == 0) break;
      uint64_t al = 1ull << sh;
      size_t r0 = g_refused;
      size_t nf = failing ? symh::choice(6) : 0;
      void* vp = nullptr;
      bool threw = false;
      symh_new_fail(nf);
      try { vp = pool->allocate(bytes, al); } catch (const std::bad_alloc&) { threw = true; }
      bool fired = nf && symh_new_fail(0) == 0;
      symh_new_fail(0);
      for (auto& e : pool->get_pools()) CHECK_MSG(e.second != nullptr, "a size class without a pool");
      if (threw) {
        COVER("request refused");
        CHECK_MSG(fired || g_refused > r0 || bytes > TOP / 2, "request refused though memory was granted");
        for (size_t i = m0; i < g_nmap; i++) CHECK_MSG(!g_map[i].live || pool->active_size_classes() > c0, "a refused request keeps a mapping");
      } else if (bytes == 0) {
        CHECK_MSG(vp == nullptr && g_nmap == m0 && pool->active_size_classes() == c0, "a request of no bytes changes the pool");
      } else {
        CHECK_MSG(vp != nullptr, "null for a request of some bytes");
        uint64_t p = (uint64_t)vp, c = symh_concrete(MultiSizeHugePagePool::get_size_class(bytes));
        block_ok(p, bytes, al);
        size_t b = block_add(p, bytes, al);
        bool seen = false;
        for (size_t i = 0; i < g_ncls; i++) seen |= g_cls[i] == c;
        if (!seen) { g_cls[g_ncls++] = c; COVER("new size class"); }
        CHECK_MSG(pool->get_pool(c) != nullptr, "no pool for the size class of a request");
        CHECK_MSG(failing || g_refused || pool->active_size_classes() == g_ncls, "number of active size classes");
        // a freed block of the class must be reused before the class takes fresh memory
        bool could = false, reused = false;
        for (size_t i = 0; i < g_nfr; i++) {
          could |= (MultiSizeHugePagePool::get_size_class(g_fr[i].bytes) == c) & ((g_fr[i].p & (al - 1)) == 0);
          if ((g_fr[i].p + g_fr[i].bytes <= p) | (p + bytes <= g_fr[i].p)) continue;
          reused = true;
          g_fr[i] = g_fr[--g_nfr];
          i--;
        }
        CHECK_MSG(!could || reused, "fresh memory taken though a freed block of the size class serves the request");
        if (reused) { COVER("reuses a block"); CHECK_MSG(g_nmap == m0, "grows though it reuses a block"); }
        if (fill && lo >= 8) {
          g_blk[b].tag = symh_sym(64);
          g_blk[b].marked = true;
          *(volatile uint64_t*)p = g_blk[b].tag;
        }
      }
    }
    for (size_t i = 0; i < g_nblk; i++)
      if (g_blk[i].live && g_blk[i].marked) CHECK_MSG(*(volatile uint64_t*)g_blk[i].p == g_blk[i].tag, "a block in use was changed");
  }
#ifdef ALLOCATOR_STATS
  uint64_t use = 0, want = 0;
  for (auto& e : pool->get_pools()) use += e.second->get_current_usage();
  for (size_t i = 0; i < g_nblk; i++) if (g_blk[i].live) want += MultiSizeHugePagePool::get_size_class(g_blk[i].bytes);
  CHECK_MSG(use == want, "bytes in use over all size classes");
#endif
  // taking and giving back blocks of one size again and again needs no further memory
  if (size_t reps = symh::param("reps", 3)) {
    uint64_t bytes = symh_sym(64);
    symh::assume((bytes >= lo) & (bytes >= 1) & (bytes <= hi));
    size_t m0 = 0;
    uint64_t c = symh_concrete(MultiSizeHugePagePool::get_size_class(bytes));
    for (size_t i = 0; i < reps; i++) {
      try {
        void* p = pool->allocate(c, 8);
        if (i > 0) CHECK_MSG(g_nmap == m0, "grows while one block is taken and given back");
        m0 = g_nmap;
        pool->deallocate(p, i % 2 ? c : c - 1);
      } catch (const std::bad_alloc&) { break; }
    }
  }
  symh::observe(g_nmap);
  symh::observe(pool->active_size_classes());
  delete pool;
  all_unmapped();
}
