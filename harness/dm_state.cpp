// One operation with arbitrary arguments on a dense map holding n elements
// with arbitrary strictly increasing keys.
#include "dm.h"
extern "C" void harness_main() {
  size_t n = symh::param("n", 4);
  bool stale = symh::param("stale", 0);
  if (symh::param("anyn", 0)) n = symh::choice(Cap + 1);
  Map& m = *new Map();
  Ref& r = *new Ref();
  build(m, r, n, stale);
  size_t nop = symh::param("nop", 0);
  size_t op = nop ? nop - 1 : symh::choice(9);
  bool full = n == Cap, threw = false;
  if (op == 7) {
    if (n) {
      size_t i = symh::choice(n);
      auto it = m.erase(m.begin() + i);
      r.del(i);
      CHECK(it == m.begin() + i);
      COVER("erase iterator");
    }
  } else if (op == 8) {
    m.clear();
    r.n = 0;
    COVER("clear");
  } else {
    Key k = Mk<Key>::make();
    Val v = Mk<Val>::make();
    size_t pos = r.lb(k);
    bool has = r.has(pos, k), ok = !has;
    Map::iterator it = m.begin() + pos;
    try {
      switch (op) {
        case 0: { auto x = m.insert(k, v); it = x.first; ok = x.second; break; }
        case 1: { auto x = m.insert_or_assign(k, v); it = x.first; ok = x.second; break; }
        case 2: { auto x = m.try_emplace(k, v); it = x.first; ok = x.second; break; }
        case 3: { Val& y = m[k]; if (!has) CHECK(same_bits(y, Val{})); y = v; break; }
        case 4: { auto x = m.insert_hint(m.lower_bound(k), k, v); it = x.first; ok = x.second; break; }
        case 5: { size_t c = m.erase(k); CHECK(c == (has ? 1u : 0u)); break; }
        case 6: { auto x = m.find(k); CHECK((x != m.end()) == has); if (has) CHECK(x.index() == pos); break; }
      }
    } catch (const std::runtime_error&) { threw = true; COVER("throws"); }
    if (op == 5) { CHECK(!threw); if (has) { r.del(pos); COVER("erase"); } }
    else if (op == 6) CHECK(!threw);
    else if (threw) { CHECK(full); if (op == 1 || op == 3) CHECK(!has); }
    else {
      CHECK(has || !full);
      CHECK(ok == !has);
      CHECK(it == m.begin() + pos);
      if (!has) { r.ins(pos, k, v); COVER("new key"); }
      else { COVER("existing key"); if (op == 1 || op == 3) r.v[pos] = v; }
    }
  }
  same(m, r);
  // later lookups stay exact
  for (size_t i = 0; i < r.n; i++) {
    auto it = m.find(r.k[i]);
    CHECK(it != m.end() && it.index() == i);
  }
  delete &m;
  delete &r;
}
