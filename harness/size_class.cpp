// C23: size classes of the multi-size pool, for every request a class exists for.
#include "pool.h"
#include <fast_containers/multi_size_hugepage_pool.hpp>
using namespace kressler::fast_containers;
static uint64_t cls(uint64_t b) { return MultiSizeHugePagePool::get_size_class(b); }
extern "C" void harness_main() {
  uint64_t a = symh_sym(64), b = symh_sym(64);
  symh::assume((a <= (1ull << 63)) & (b <= (1ull << 63)));
  uint64_t ca = cls(a), cb = cls(b);
  CHECK_MSG(ca >= a, "size class smaller than the request");
  CHECK_MSG((a == 0) == (ca == 0), "class of an empty request");
  CHECK_MSG(cls(ca) == ca, "a size class is not its own class");
  CHECK_MSG(!(a <= b) | (ca <= cb), "size class falls when the request grows");
  CHECK_MSG((ca & 63) == 0, "size class is not a multiple of a cache line");
  if (a <= 512) { CHECK_MSG(ca - a < 64, "wastes more than 63 bytes"); COVER("cache lines"); }
  else if (a <= 2048) { CHECK_MSG(ca - a < 256 && (ca & 255) == 0, "wastes more than 255 bytes, or no multiple of 256"); COVER("steps of 256"); }
  else { CHECK_MSG((ca & (ca - 1)) == 0 && ca - a < a, "not the next power of two"); COVER("powers of two"); }
  symh::observe(ca);
  symh::observe(cb);
}
