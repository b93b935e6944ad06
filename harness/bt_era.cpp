// C07: single erasures by arbitrary key or at any position.
#include "bt.h"
extern "C" void harness_main() {
  Tree& t = *new Tree();
  Ref& r = *new Ref();
  shape(t, r);
  size_t nops = symh::param("ops", 1), mode = symh::param("how", 0), grow = symh::param("grow", 0);
  bool walk = symh::param("walk", 1);
  for (size_t q = 0; q < nops; q++) {
    size_t before = r.n;
    size_t op = mode ? mode - 1 : symh::choice(r.n ? 3 : 1);
    if (op && !r.n) break;
    if (op == 0) {  // arbitrary key
      Key k = probe();
      size_t pos = r.lb(k);
      bool has = r.has(pos, k);
      size_t got = t.erase(k);
      CHECK(got == (has ? 1 : 0));
      if (has) { r.del(pos); COVER("erased"); } else COVER("absent");
    } else {  // any position, iterator obtained by search or by walking
      size_t step = symh::param("step", 1), w0, w1;
      window(r, w0, w1);
      if (w1 >= r.n) w1 = r.n - 1;
      if (w0 > w1) w0 = w1;
      size_t pos = w0 + symh::choice((w1 - w0) / step + 1) * step;
      Tree::iterator it;
      if (op == 1) it = t.find(r.k[pos]);
      else { it = t.begin(); for (size_t i = 0; i < pos; i++) ++it; }
      at_pos(t, r, it, pos);
      Tree::iterator nx = t.erase(it);
      r.del(pos);
      if (walk) walk_from(t, r, nx, pos); else at_pos(t, r, nx, pos);
      if (nx != t.begin() && r.n) { --nx; at_pos(t, r, nx, pos - 1); }
      COVER("erased at position");
    }
    CHECK(t.size() == r.n && r.n <= before);
    verify(t, r);
  }
  finds(t, r);
  for (size_t q = 0; q < grow; q++) {  // the tree stays usable
    Key k = probe();
    Val v = mkval(q + 1000);
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    auto res = t.insert(k, v);
    CHECK(res.second == !has);
    if (!has) r.ins(pos, k, v);
    at_pos(t, r, res.first, pos);
    verify(t, r);
  }
  symh::observe(t.size());
  delete &t;
  delete &r;
}
