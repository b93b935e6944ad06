// C19-C22: HugePagePool: allocations and deallocations in every order, blocks
// filled by their owners with arbitrary data, growth, huge pages granted or
// refused, mappings and bookkeeping allocations that fail. With "far", pool
// sizes, request sizes and the addresses of mappings are arbitrary 64-bit values.
#include "pool.h"
#include <fast_containers/hugepage_pool.hpp>
using namespace kressler::fast_containers;
struct Freed { uint64_t p, bytes; };
static Freed g_fr[64];
static size_t g_nfr;
extern "C" void harness_main() {
  // request sizes: 8-byte steps chosen by the bits of "sizes"; alignments by the bits of "als"
  uint64_t sizes = symh::param("sizes", 0x6), als = symh::param("als", 8), symsz = symh::param("symsz", 0);
  g_fict = symh::param("far", 0);
  uint64_t minb = symh::param("minb", 16), script = symh::param("script", 0);
  g_wide = minb >= 16;
  size_t mult = symh::param("mult", 0);  // sizes are multiples of 2^mult
  if (g_fict) symh_far(FLO, FHI);
  uint64_t init = g_fict ? symh_sym(64 - mult) << mult : symh::param("init", 256), growth = g_fict && !symh::param("fixed", 0) ? symh_sym(64 - mult) << mult : symh::param("growth", 128);
  bool want = symh::param("want", 0) && symh::choice(2);
  bool failing = symh::param("newfail", 0);
  g_huge_ok = symh::param("hugeok", 0);
  g_may_refuse = symh::param("refuse", 0);
  size_t r0 = g_refused;
  HugePagePool* pool = nullptr;
  symh_new_fail(failing ? symh::choice(4) : 0);
  try { pool = new HugePagePool(init, want, growth); } catch (const std::bad_alloc&) { COVER("construction fails"); }
  bool nofail = g_refused == r0;
  symh_new_fail(0);
  if (!pool) { all_unmapped(); return; }
  CHECK_MSG(g_nmap == 1 && pool->bytes_remaining() == g_map[0].len && g_map[0].len >= init, "remaining capacity of a new pool");
  CHECK_MSG(pool->using_hugepages() == g_map[0].huge && (want || !g_map[0].huge), "huge pages reported or used wrongly");
  CHECK_MSG(!(want && g_huge_ok && nofail) || g_map[0].huge, "huge pages are not used though granted");
  uint64_t allocs = 0, frees = 0, total = 0, cur = 0, peak = 0, grown = 0;
  size_t nops = symh::param("ops", 5);
  for (size_t q = 0; q < nops; q++) {
    size_t live[64], nl = 0;
    for (size_t i = 0; i < g_nblk; i++) if (g_blk[i].live) live[nl++] = i;
    size_t step = script >> (4 * q) & 15;  // 0: anything, 1: a request, 2: give one back
    size_t what = step == 1 ? 0 : step == 2 && nl ? 1 + symh::choice(nl) : symh::choice(1 + nl);
    uint64_t rem = pool->bytes_remaining();
    size_t m0 = g_nmap;
    if (what > 0) {  // give one back
      Block& b = g_blk[live[what - 1]];
      b.live = false;
      g_fr[g_nfr++] = Freed{b.p, b.bytes};
      symh_new_fail(failing ? 1 : 0);  // giving back needs no memory
      pool->deallocate((void*)b.p, b.bytes);
      symh_new_fail(0);
      frees++;
      cur -= b.bytes;
      CHECK_MSG(pool->bytes_remaining() == rem && g_nmap == m0, "giving a block back changes the fresh memory");
      COVER("gives back");
    } else {
      uint64_t bytes, al;
      if (g_fict) {
        bytes = symh_sym(64 - mult) << mult;
        symh::assume(bytes >= minb);
      } else if (symsz) {
        bytes = symh_sym(8);
        symh::assume((bytes >= 8) & (bytes <= 8 + symsz));
        bytes = symh_concrete(bytes);
      } else {
        size_t pick = symh::choice(__builtin_popcountll(sizes)), sh = 0;
        for (uint64_t m = sizes;; m >>= 1, sh++) if ((m & 1) && pick-- == 0) break;
        bytes = 8 * (sh + 1);
      }
      size_t pick = symh::choice(__builtin_popcountll(als)), sh = 0;
      for (uint64_t m = als;; m >>= 1, sh++) if ((m & 1) && pick-- == 0) break;
      al = 1ull << sh;
      r0 = g_refused;
      size_t nf = failing ? symh::choice(4) : 0;
      void* vp = nullptr;
      bool threw = false;
      symh_new_fail(nf);
      try { vp = pool->allocate(bytes, al); } catch (const std::bad_alloc&) { threw = true; }
      bool fired = nf && symh_new_fail(0) == 0;
      symh_new_fail(0);
      bool could = false;  // a freed block that serves the request
      for (size_t i = 0; i < g_nfr; i++) could |= g_fr[i].bytes == bytes && (g_fr[i].p & (al - 1)) == 0;
      if (threw) {
        COVER("request refused");
        CHECK_MSG(fired || g_refused > r0 || growth == 0 || bytes > TOP / 2, "request refused though memory was granted");
        CHECK_MSG(fired || !could, "request refused though a freed block serves it");
        CHECK_MSG(pool->bytes_remaining() == rem, "a refused request changes the remaining capacity");
        for (size_t i = m0; i < g_nmap; i++) CHECK_MSG(!g_map[i].live, "a refused request keeps a mapping");
      } else if (bytes == 0) {
        CHECK_MSG(vp == nullptr && pool->bytes_remaining() == rem && g_nmap == m0, "a request of no bytes changes the pool");
      } else {
        CHECK_MSG(vp != nullptr, "null for a request of some bytes");
        uint64_t p = (uint64_t)vp;
        block_ok(p, bytes, al);
        size_t b = block_add(p, bytes, al);
        size_t nfr = g_nfr;
        bool reused = pool->bytes_remaining() == rem && g_nmap == m0;
        for (size_t i = 0; i < g_nfr; i++) {
          if ((g_fr[i].p + g_fr[i].bytes <= p) | (p + bytes <= g_fr[i].p)) continue;
          CHECK_MSG(reused, "a block in fresh memory overlaps a freed block");
          g_fr[i] = g_fr[--g_nfr];
          i--;
        }
        allocs++;
        total += bytes;
        cur += bytes;
        if (cur > peak) peak = cur;
        if (reused) {
          COVER("reuses a block");
          CHECK_MSG(nfr > g_nfr, "memory handed out was neither fresh nor given back");
        } else {
          CHECK_MSG(!could, "fresh memory taken though a freed block of this size serves the request");
          if (g_nmap > m0) {
            COVER("grows");
            grown++;
            Map& m = g_map[g_nmap - 1];
            CHECK_MSG(g_nmap == m0 + 1 && m.len >= growth, "further region smaller than the growth size, or more than one");
            CHECK_MSG(pool->bytes_remaining() == m.base + m.len - (p + bytes), "remaining capacity after growth");
            CHECK_MSG(m.huge == (pool->using_hugepages() && g_refused == r0), "growth uses the wrong kind of pages");
            CHECK_MSG(!(rem >= bytes && rem - bytes >= al - 1), "grows though the request fits");
          } else {
            uint64_t used = rem - pool->bytes_remaining();
            CHECK_MSG(used >= bytes && used < bytes + al, "remaining capacity falls by more or less than the request and its padding");
            bool in = false;
            for (size_t i = 0; i < g_nmap; i++) in |= g_map[i].base + g_map[i].len - (p + bytes) == pool->bytes_remaining();
            CHECK_MSG(in, "remaining capacity is not what is left");
          }
        }
        if (minb >= 8) block_fill(b);
      }
    }
    if (!g_fict || q + 1 == nops) blocks_intact();
#ifdef ALLOCATOR_STATS
    CHECK_MSG(pool->get_allocations() == allocs && pool->get_deallocations() == frees, "call counters");
    CHECK_MSG(pool->get_bytes_allocated() == total && pool->get_current_usage() == cur && pool->get_peak_usage() == peak, "byte counters");
    CHECK_MSG(pool->get_growth_events() == grown, "growth counter");
#endif
    CHECK_MSG(pool->initial_size() == init && pool->growth_size() == growth, "configuration");
  }
  symh::observe(pool->bytes_remaining());
  symh::observe(g_nmap);
  delete pool;
  all_unmapped();
}
