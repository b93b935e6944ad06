// C06: the arguments of an insertion refer to elements of the same tree.
#include "bt.h"
extern "C" void harness_main() {
  Tree& t = *new Tree();
  Ref& r = *new Ref();
  shape(t, r);
  if (!r.n) { delete &t; delete &r; return; }
  size_t step = symh::param("step", 1);
  size_t j = symh::choice((r.n + step - 1) / step) * step;   // the element referred to
  auto src = t.begin();
  for (size_t i = 0; i < j; i++) ++src;
  Val v = r.v[j];
  Key k = probe();
  #ifdef SAMEKV
  size_t op = symh::choice(9), pos = 0;
#else
  size_t op = symh::choice(6), pos = 0;
#endif
  bool ok = false, has = false, assign = false;
  Tree::iterator it;
  if (op < 5) {  // the value is an element's value
    pos = r.lb(k);
    has = r.has(pos, k);
    switch (op) {
      case 0: std::tie(it, ok) = t.insert(k, src->second); break;
      case 1: std::tie(it, ok) = t.insert_or_assign(k, src->second); assign = true; break;
      case 2: std::tie(it, ok) = t.try_emplace(k, src->second); break;
      case 3: std::tie(it, ok) = t.emplace(k, src->second); break;
      default: { const Val& sv = src->second; std::tie(it, ok) = t.insert_or_assign(k, sv); assign = true; }
    }
  } else if (op == 5) {  // both key and value belong to an element
    k = r.k[j];
    pos = j;
    has = true;
    std::tie(it, ok) = t.insert(src->first, src->second);
  } else {  // the key is some element's value
#ifdef SAMEKV
    Key nk = Mk<Key>::make();
    src->second = nk;
    r.v[j] = nk;
    k = nk;
    pos = r.lb(k);
    has = r.has(pos, k);
    v = k;
    if (op == 6) std::tie(it, ok) = t.insert(src->second, src->second);
    else if (op == 7) { v = fromInt<Val>(7); std::tie(it, ok) = t.try_emplace(src->second, v); }
    else { v = Val{}; Val& x = t[src->second]; ok = !has; if (!has) { CHECK(same_bits(x, v)); } it = t.find(k); }
#endif
  }
  if (has) COVER("present"); else COVER("added");
  CHECK(ok == !has);
  if (!has) r.ins(pos, k, v);
  else if (assign) r.v[pos] = v;
  at_pos(t, r, it, pos);
  verify(t, r);
  finds(t, r);
  symh::observe(t.size());
  delete &t;
  delete &r;
}
