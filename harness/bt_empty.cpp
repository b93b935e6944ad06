// C14: an emptied, cleared or moved-from tree is as good as new.
#include "alloc.h"
#define ALLOC PA<std::pair<KEY, VAL>>
#include "bt.h"
static void is_empty(Tree& t) {
  const Tree& ct = t;
  CHECK(t.size() == 0 && t.empty());
  CHECK(t.begin() == t.end() && ct.begin() == ct.end() && ct.cbegin() == ct.cend());
  CHECK(t.rbegin() == t.rend() && ct.rbegin() == ct.rend());
  size_t n = 0;
  for (auto it = t.begin(); it != t.end() && n < 3; ++it) n++;
  for (auto it = t.rbegin(); it != t.rend() && n < 3; ++it) n++;
  CHECK(n == 0);
}
extern "C" void harness_main() {
  Tree* t = new Tree();
  Tree* o = nullptr;
  Ref& r = *new Ref();
  shape(*t, r);
  size_t how = symh::choice(8);
  switch (how) {
    case 0: t->clear(); COVER("cleared"); break;
    case 1: while (r.n) { t->erase(r.k[0]); r.del(0); } COVER("erased"); break;
    case 2: while (r.n) { t->erase(--t->end()); r.n--; } break;
    case 3: { Rng g(5); while (r.n) { size_t p = g(r.n); t->erase(r.k[p]); r.del(p); } break; }
    case 4: t->erase(t->begin(), t->end()); COVER("range"); break;
    case 5: o = new Tree(std::move(*t)); COVER("moved from"); break;
    case 6: o = new Tree(); o->insert(fromInt<Key>(3), mkval(3)); *o = std::move(*t); COVER("move assigned from"); break;
    default: { Tree e; o = new Tree(); t->swap(e); *o = e; COVER("swapped with empty"); }
  }
  if (o) verify(*o, r);
  r.n = 0;
  is_empty(*t);
  {
    const Tree& ct = *t;
    Key k = probe();
    CHECK(t->find(k) == t->end() && t->lower_bound(k) == t->end() && t->upper_bound(k) == t->end());
    CHECK(!ct.contains(k) && ct.count(k) == 0 && t->erase(k) == 0);
    bool thrown = false;
    try { (void)t->at(k); } catch (const std::out_of_range&) { thrown = true; }
    CHECK(thrown);
    CHECK(t->erase(t->begin(), t->end()) == t->end());
    if (symh::param("again", 1)) t->clear();
    is_empty(*t);
    Tree c(ct);
    is_empty(c);
  }
  if (o && symh::choice(2)) { delete o; o = nullptr; }
  // reuse
  size_t nops = symh::param("ops", 2);
  for (size_t q = 0; q < nops; q++) {
    Key k = probe();
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    if (symh::choice(2)) {
      auto res = t->insert(k, mkval(q));
      CHECK(res.second == !has);
      if (!has) r.ins(pos, k, mkval(q));
      at_pos(*t, r, res.first, pos);
    } else {
      CHECK(t->erase(k) == (has ? 1 : 0));
      if (has) r.del(pos);
    }
    verify(*t, r);
  }
  for (size_t i = 0; i < symh::param("refill", 20); i++) {
    Key k = fromInt<Key>((long)(i * 7 % 31));
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    CHECK(t->insert(k, mkval(i)).second == !has);
    if (!has) r.ins(pos, k, mkval(i));
  }
  verify(*t, r);
  finds(*t, r);
  symh::observe(t->size());
  delete t;
  delete o;
  CHECK(g_kind_live[0] == 0 && g_kind_live[1] == 0);
  delete &r;
}
