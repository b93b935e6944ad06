// C01: sequences of dense_map operations against a reference ordered map.
#include "dm.h"
extern "C" void harness_main() {
  size_t nops = symh::param("ops", 3), pre = symh::param("pre", 0);
  Map& m = *new Map();
  Ref& r = *new Ref();
  if (pre) build(m, r, pre);
  for (size_t t = 0; t < nops; t++) {
    size_t op = symh::choice(8);
    if (op == 7) { m.clear(); r.n = 0; COVER("clear"); same(m, r); continue; }
    if (op == 6) {
      if (r.n == 0) continue;
      size_t i = symh::choice(r.n);
      auto it = m.erase(m.begin() + i);
      r.del(i);
      CHECK(it.index() == i);
      CHECK(it == m.begin() + i);
      COVER("erase iterator");
      same(m, r);
      continue;
    }
    Key k = Mk<Key>::make();
    Val v = Mk<Val>::make();
    size_t pos = r.lb(k);
    bool has = r.has(pos, k), full = r.n == Cap;
    bool threw = false, ok = !has;
    Map::iterator it = m.end();
    try {
      switch (op) {
        case 0: { auto x = m.insert(k, v); it = x.first; ok = x.second; break; }
        case 1: { auto x = m.insert_or_assign(k, v); it = x.first; ok = x.second; break; }
        case 2: { auto x = m.try_emplace(k, v); it = x.first; ok = x.second; break; }
        case 3: { Val& y = m[k]; if (!has) CHECK(same_bits(y, Val{})); y = v; it = m.begin() + pos; break; }
        case 4: { auto x = m.insert_hint(m.lower_bound(k), k, v); it = x.first; ok = x.second; break; }
        case 5: {
          size_t c = m.erase(k);
          CHECK(c == (has ? 1u : 0u));
          if (has) { r.del(pos); COVER("erase"); }
          same(m, r);
          continue;
        }
      }
    } catch (const std::runtime_error&) { threw = true; COVER("throws"); }
    if (threw) {
      // documented: insert, insert_hint and try_emplace throw on a full map,
      // assigning operations only when the key would have to be added
      CHECK(full);
      if (op == 1 || op == 3) CHECK(!has);
    } else {
      CHECK(has || !full);
      CHECK(ok == !has);
      CHECK(it == m.begin() + pos);
      CHECK(it.index() == pos);
      if (!has) { r.ins(pos, k, v); COVER("new key"); }
      else { COVER("existing key"); if (op == 1 || op == 3) r.v[pos] = v; }
    }
    same(m, r);
  }
  delete &m;
  delete &r;
}
