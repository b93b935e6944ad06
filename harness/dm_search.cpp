// C02: find, lower_bound, upper_bound for arbitrary contents and probe.
#include "dm.h"
extern "C" void harness_main() {
  size_t n = symh::param("anyn", 0) ? symh::choice(Cap + 1) : symh::param("n", 4);
  Map& m = *new Map();
  Ref& r = *new Ref();
  build(m, r, n, symh::param("stale", 0));
  Key p = Mk<Key>::make();
  size_t lo = r.lb(p);  // number of keys before p
  size_t hi = lo + r.has(lo, p);
  const Map& cm = m;
  size_t l1 = m.lower_bound(p).index();
  CHECK(l1 == lo);
  CHECK(cm.lower_bound(p).index() == lo);
  CHECK(m.upper_bound(p).index() == hi);
  CHECK(cm.upper_bound(p).index() == hi);
  size_t want = lo != hi ? lo : n;
  CHECK(m.find(p).index() == want);
  CHECK(cm.find(p).index() == want);
  CHECK((m.find(p) == m.end()) == (lo == hi));
  CHECK((cm.find(p) == cm.end()) == (lo == hi));
  if (lo != hi) COVER("found"); else COVER("absent");
  if (n && lo == n) COVER("past the end");
  if (n && lo == 0) COVER("first");
  symh::observe(l1);
  symh::observe(hi);
  CHECK(m.size() == n);
  delete &m;
  delete &r;
}
