// Arguments that refer to an element already in the map.
#include "dm.h"
extern "C" void harness_main() {
  size_t n = symh::range(1, symh::param("maxn", 4));
  Map& m = *new Map();
  Ref& r = *new Ref();
  build(m, r, n);
  size_t j = symh::choice(n);
  size_t op = symh::choice(5), which = symh::choice(std::is_same_v<Key, Val> ? 4 : 3);
  Key fk = Mk<Key>::make();
  size_t pos = r.lb(fk);
  bool has = r.has(pos, fk);
  const Key* kp = &fk;
  Val fv = Mk<Val>::make();
  const Val* vp = &fv;
  auto e = *(m.begin() + j);
  if (which == 0) vp = &e.second;                                     // fresh key, stored value
  else if (which == 1) { kp = &e.first; pos = j; has = true; }        // stored key, fresh value
  else if (which == 2) { kp = &e.first; vp = &e.second; pos = j; has = true; }  // both
  else {                      // key is a stored value
    kp = reinterpret_cast<const Key*>(&e.second);
    pos = r.lb(*kp);
    has = r.has(pos, *kp);
  }
  const Key k = *kp;
  const Val v = *vp;
  bool threw = false, ok = !has;
  Map::iterator it = m.begin() + pos;
  try {
    switch (op) {
      case 0: { auto x = m.insert(*kp, *vp); it = x.first; ok = x.second; break; }
      case 1: { auto x = m.insert_or_assign(*kp, *vp); it = x.first; ok = x.second; break; }
      case 2: { auto x = m.try_emplace(*kp, *vp); it = x.first; ok = x.second; break; }
      case 3: { auto x = m.insert_hint(m.lower_bound(*kp), *kp, *vp); it = x.first; ok = x.second; break; }
      case 4: { size_t c = m.erase(*kp); CHECK(c == (has ? 1u : 0u)); ok = !has; break; }
    }
  } catch (const std::runtime_error&) { threw = true; }
  if (op == 4) { CHECK(!threw); if (has) r.del(pos); }
  else if (threw) { CHECK(n == Cap); if (op == 1) CHECK(!has); }
  else {
    CHECK(ok == !has);
    CHECK(it == m.begin() + pos);
    if (!has) { r.ins(pos, k, v); COVER("shifts the referenced element"); }
    else if (op == 1) r.v[pos] = v;
  }
  same(m, r);
  delete &m;
  delete &r;
}
