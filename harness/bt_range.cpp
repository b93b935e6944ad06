// C08: range erasure between any two positions.
#include "bt.h"
extern "C" void harness_main() {
  Tree& t = *new Tree();
  Ref& r = *new Ref();
  shape(t, r);
  size_t step = symh::param("astep", 1), lstep = symh::param("lstep", 1);
  size_t w0, w1;
  window(r, w0, w1);
  size_t a = w0 + symh::choice((w1 - w0) / step + 1) * step;
  size_t left = r.n - a, l = symh::choice((w1 - a) / lstep + 2) * lstep;
  if (l > left) { l = left; COVER("to the end"); }
  size_t b = a + l;
  // the iterators are obtained by search or by walking, from either end
  size_t how = symh::choice(3);
  Tree::iterator fi, la;
  if (how == 0) { fi = t.begin(); for (size_t i = 0; i < a; i++) ++fi; la = fi; for (size_t i = a; i < b; i++) ++la; }
  else if (how == 1) { fi = a < r.n ? t.find(r.k[a]) : t.end(); la = b < r.n ? t.lower_bound(r.k[b]) : t.end(); }
  else { la = t.end(); for (size_t i = r.n; i > b; i--) --la; fi = la; for (size_t i = b; i > a; i--) --fi; }
  Tree::iterator it = t.erase(fi, la);
  r.cut(a, b);
  walk_from(t, r, it, a);
  verify(t, r);
  finds(t, r);
  if (l == 0) COVER("empty range");
  if (r.n == 0 && l) COVER("everything erased");
  if (l && r.n) COVER("part erased");
  size_t n2 = symh::param("grow", 1);
  for (size_t q = 0; q < n2; q++) {
    Key k = probe();
    Val v = mkval(q + 1000);
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    auto res = t.insert(k, v);
    CHECK(res.second == !has);
    if (!has) r.ins(pos, k, v);
    at_pos(t, r, res.first, pos);
    verify(t, r);
  }
  symh::observe(t.size());
  delete &t;
  delete &r;
}
