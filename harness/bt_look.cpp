// C09: every lookup function with an arbitrary key.
#include "bt.h"
extern "C" void harness_main() {
  Tree& t = *new Tree();
  const Tree& ct = t;
  Ref& r = *new Ref();
  shape(t, r);
  size_t muts = symh::param("muts", 0);
  for (size_t q = 0; q < muts; q++) {  // one arbitrary change before looking
    Key k = probe();
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    if (symh::choice(2)) { t.insert(k, mkval(900 + q)); if (!has) r.ins(pos, k, mkval(900 + q)); }
    else { t.erase(k); if (has) r.del(pos); }
  }
  Key k = probe();
  size_t pos = r.lb(k);
  bool has = r.has(pos, k);
  size_t up = pos + (has ? 1 : 0);
  size_t fpos = has ? pos : r.n;
  if (has) COVER("present"); else COVER("absent");
  if (pos == r.n) COVER("above all"); else if (pos == 0 && !has) COVER("below all");
  at_pos(t, r, t.find(k), fpos);
  {
    auto it = ct.find(k);
    CHECK((it != ct.end()) == has);
    if (has && it != ct.end()) CHECK(same_bits(it->first, r.k[pos]) && same_bits(it->second, r.v[pos]));
  }
  CHECK(ct.contains(k) == has);
  CHECK(ct.count(k) == (has ? 1u : 0u));
  walk_from(t, r, t.lower_bound(k), pos);
  walk_from(t, r, t.upper_bound(k), up);
  auto er = t.equal_range(k);
  at_pos(t, r, er.first, pos);
  at_pos(t, r, er.second, up);
  CHECK((er.first == er.second) == !has);
  if (symh::param("at", 1)) {
    bool thrown = false, cthrown = false;
    try { Val& v = t.at(k); if (has) CHECK(same_bits(v, r.v[pos])); } catch (const std::out_of_range&) { thrown = true; }
    try { const Val& v = ct.at(k); if (has) CHECK(same_bits(v, r.v[pos])); } catch (const std::out_of_range&) { cthrown = true; }
    CHECK(thrown == !has);
    CHECK(cthrown == !has);
    if (has) {  // the reference designates the stored value
      Val nv = Mk<Val>::make();
      t.at(k) = nv;
      r.v[pos] = nv;
    }
  }
  verify(t, r);
  symh::observe(pos);
  symh::observe(has);
  delete &t;
  delete &r;
}
