// C10: iteration laws after an arbitrary history.
#include "bt.h"
extern "C" void harness_main() {
  Tree& t = *new Tree();
  const Tree& ct = t;
  Ref& r = *new Ref();
  shape(t, r);
  size_t muts = symh::param("muts", 1);
  for (size_t q = 0; q < muts; q++) {
    Key k = probe();
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    if (symh::choice(2)) { t.insert(k, mkval(900 + q)); if (!has) { r.ins(pos, k, mkval(900 + q)); COVER("inserted"); } }
    else { t.erase(k); if (has) { r.del(pos); COVER("erased"); } }
  }
  verify(t, r);
  CHECK((t.begin() == t.end()) == (r.n == 0));
  CHECK((t.rbegin() == t.rend()) == (r.n == 0));
  // forward, one step back and forth at every position; post- and pre-increment agree
  size_t i = 0;
  for (auto it = t.begin(); it != t.end(); ++i) {
    if (i >= r.n) break;
    auto c = it;
    auto old = it++;
    CHECK(old == c && old != it);
    auto back = it;
    --back;
    CHECK(back == c);
    CHECK(same_bits((*back).first, r.k[i]) && same_bits((*back).second, r.v[i]));
    auto p = it;
    auto q2 = p--;
    CHECK(q2 == it && p == c);
    auto fw = p;
    CHECK(++fw == it);
  }
  CHECK(i == r.n);
  // const iteration
  i = 0;
  for (auto it = ct.begin(); it != ct.end(); ++it, ++i) { if (i >= r.n) break; CHECK(same_bits(it->first, r.k[i]) && same_bits(it->second, r.v[i])); }
  CHECK(i == r.n);
  i = 0;
  for (auto it = ct.cbegin(); it != ct.cend(); ++it, ++i) { if (i >= r.n) break; CHECK(same_bits(it->first, r.k[i])); }
  CHECK(i == r.n);
  // decrement from end
  i = r.n;
  for (auto it = t.end(); it != t.begin();) { --it; if (!i) { i = 1; break; } --i; CHECK(same_bits(it->first, r.k[i]) && same_bits(it->second, r.v[i])); }
  CHECK(i == 0);
  // reverse iterators: forwards, then decremented back
  i = r.n;
  auto ri = t.rbegin();
  for (; ri != t.rend(); ++ri) { if (!i) break; --i; CHECK(same_bits(ri->first, r.k[i]) && same_bits((*ri).second, r.v[i])); }
  CHECK(i == 0);
  for (; ri != t.rbegin(); ++i) { --ri; if (i >= r.n) break; CHECK(same_bits(ri->first, r.k[i])); }
  CHECK(i == r.n);
  i = r.n;
  for (auto x = t.rbegin(); x != t.rend(); --i) {
    if (!i) break;
    auto c = x;
    auto old = x++;
    CHECK(old == c);
    auto b = x;
    auto y = b--;
    CHECK(y == x && b == c);
    CHECK(same_bits(b->first, r.k[i - 1]));
  }
  CHECK(i == 0);
  i = r.n;
  for (auto x = ct.rbegin(); x != ct.rend(); ++x) { if (!i) break; --i; CHECK(same_bits(x->first, r.k[i])); }
  CHECK(i == 0);
  // an iterator lets its element be changed
  if (r.n) { auto it = t.begin(); Val nv = Mk<Val>::make(); it->second = nv; r.v[0] = nv; auto l = t.rbegin(); l->second = nv; r.v[r.n - 1] = nv; }
  verify(t, r);
  if (r.n == 0) COVER("empty");
  symh::observe(t.size());
  delete &t;
  delete &r;
}
