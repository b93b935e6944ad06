// C05: copies, moves, self-assignment and iterators of dense maps.
#include "dm.h"
static void usable(Map& m, const Ref& r) {
  // the moved-from or copied map works on: one insertion of an arbitrary key
  Ref& t = *new Ref(r);
  if (t.n == Cap) { m.erase(m.begin()); t.del(0); }
  Key k = Mk<Key>::make();
  Val v = Mk<Val>::make();
  size_t p = t.lb(k);
  bool has = t.has(p, k);
  auto x = m.insert(k, v);
  CHECK(x.second == !has);
  if (!has) t.ins(p, k, v);
  same(m, t);
  delete &t;
}
static void iterators(Map& m, const Ref& r) {
  const Map& cm = m;
  size_t n = r.n;
  CHECK(m.end() - m.begin() == (ptrdiff_t)n);
  CHECK(m.begin() + n == m.end());
  CHECK((m.begin() == m.end()) == (n == 0));
  CHECK(cm.cbegin() == cm.begin() && cm.cend() == cm.end());
  size_t i = 0;
  for (auto it = cm.begin(); it != cm.end(); it++, i++) { CHECK(same_bits(it->first, r.k[i])); CHECK(same_bits((*it).second, r.v[i])); }
  CHECK(i == n);
  i = n;
  for (auto it = m.rbegin(); it != m.rend(); ++it) { i--; CHECK(same_bits((*it).first, r.k[i])); CHECK(same_bits((*it).second, r.v[i])); }
  CHECK(i == 0);
  i = n;
  for (auto it = cm.crbegin(); it != cm.crend(); ++it) { i--; CHECK(same_bits((*it).first, r.k[i])); }
  CHECK(i == 0);
  CHECK(m.rend() - m.rbegin() == (ptrdiff_t)n);
  size_t x = symh::choice(n + 1), y = symh::choice(n + 1);
  auto a = m.begin() + x, b = m.begin() + y;
  ptrdiff_t d = (ptrdiff_t)y - (ptrdiff_t)x;
  CHECK(b - a == d);
  CHECK(a + d == b && b - d == a);
  CHECK((a == b) == (x == y) && (a != b) == (x != y));
  CHECK((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y));
  auto t = a;
  t += d;
  CHECK(t == b);
  t -= d;
  CHECK(t == a);
  Map::const_iterator ca = a, cb = b;
  CHECK(ca.index() == x && cb - ca == d);
  CHECK(ca + d == cb && (ca < cb) == (x < y));
  if (x < n) {
    auto u = a;
    auto old = u++;
    CHECK(old == a && u == a + 1 && u.index() == x + 1);
    auto o2 = u--;
    CHECK(o2 == a + 1 && u == a);
    CHECK(&++u != nullptr && u == a + 1);
    CHECK(--u == a);
    CHECK(same_bits(a->first, r.k[x]) && same_bits((*a).second, r.v[x]));
    CHECK(same_bits(a.value_ref(), r.v[x]) && same_bits(ca.value_ref(), r.v[x]));
    std::pair<Key, Val> p = *a;
    CHECK(same_bits(p.first, r.k[x]) && same_bits(p.second, r.v[x]));
  }
  if (x < n && y < n) {
    CHECK(same_bits(a[d].first, r.k[y]) && same_bits(a[d].second, r.v[y]));
    CHECK(same_bits(ca[d].first, r.k[y]) && same_bits(ca[d].second, r.v[y]));
    COVER("subscript");
  }
  if (x < n) {  // writing through an iterator changes that element only
    Val v = Mk<Val>::make();
    (*a).second = v;
    size_t j = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++j) CHECK(same_bits(it->second, j == x ? v : r.v[j]));
    a->second = r.v[x];
  }
}
extern "C" void harness_main() {
  size_t n = symh::choice(Cap + 1);
  size_t maxq = symh::param("maxq", Cap);
  Map& a = *new Map();
  Ref& r = *new Ref();
  Ref& e = *new Ref();
  build(a, r, n);
  size_t op = symh::choice(8);
  switch (op) {
    case 0: iterators(a, r); break;
    case 1: { Map& b = *new Map(a); same(b, r); usable(b, r); same(a, r); usable(a, r); delete &b; COVER("copy"); break; }
    case 2: { Map& b = *new Map(std::move(a)); same(b, r); same(a, e); usable(a, e); same(b, r); usable(b, r); delete &b; COVER("move"); break; }
    case 3: { Map& x = a; CHECK(&(a = x) == &a); same(a, r); usable(a, r); break; }
    case 4: { Map& x = a; CHECK(&(a = std::move(x)) == &a); same(a, r); usable(a, r); break; }
    default: {
      Ref& q = *new Ref();
      Map& b = *new Map();
      build(b, q, symh::choice(maxq + 1));
      if (op == 5) { CHECK(&(b = a) == &b); same(b, r); usable(b, r); same(a, r); usable(a, r); COVER("copy assign"); }
      else if (op == 6) { CHECK(&(b = std::move(a)) == &b); same(b, r); same(a, e); usable(a, e); same(b, r); COVER("move assign"); }
      else { std::swap(a, b); same(a, q); same(b, r); usable(a, q); same(b, r); COVER("swap"); }
      delete &b;
      delete &q;
    }
  }
  delete &a;
  delete &r;
  delete &e;
}
