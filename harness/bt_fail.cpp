// C17: an allocation fails at an arbitrary point of an insertion.
#include "alloc.h"
#define ALLOC PA<std::pair<KEY, VAL>>
#include "bt.h"
extern "C" void harness_main() {
  Tree& t = *new Tree();
  Ref& r = *new Ref();
  shape(t, r);
  long l0 = g_kind_live[0], l1 = g_kind_live[1];
  size_t maxf = symh::param("maxf", 4);
  if (symh::param("whole", 0)) {  // copying and clearing
    size_t op = symh::choice(4), at = symh::choice(maxf) + 1;
    Tree* o = nullptr;
    Ref& ro = *new Ref();
    if (op >= 2) { o = new Tree(); for (size_t i = 0; i < (op == 2 ? 3 : 60); i++) { o->insert(fromInt<Key>((long)i), mkval(i)); ro.ins(i, fromInt<Key>((long)i), mkval(i)); } l0 = g_kind_live[0]; }
    g_fail_in = (long)at;
    bool threw = false;
    try {
      if (op == 0) t.clear();
      else if (op == 1) o = new Tree(static_cast<const Tree&>(t));
      else *o = static_cast<const Tree&>(t);
    } catch (const std::bad_alloc&) { threw = true; }
    CHECK(threw == (g_fail_in == 0));
    g_fail_in = 0;
    if (op == 0) { if (threw) { COVER("clear fails"); CHECK(g_kind_live[0] == l0); } else r.n = 0; }
    if (op == 1) { if (threw) { COVER("copy construction fails"); CHECK(!o && g_kind_live[0] == l0); } else verify(*o, r); }
    if (op >= 2) {
      if (!threw) verify(*o, r);
      else {  // a valid tree with elements of one of the two
        COVER("copy assignment fails");
        size_t n = 0;
        for (auto it = o->begin(); it != o->end(); ++it) { if (n >= MAXN) break; size_t p = ro.lb(it->first), p2 = r.lb(it->first); CHECK(ro.has(p, it->first) || r.has(p2, it->first)); ro.k[0] = ro.k[0]; n++; }
        CHECK(n == o->size());
        o->clear();
        CHECK(o->empty() && o->begin() == o->end());
        CHECK(o->insert(fromInt<Key>(3), mkval(3)).second && o->size() == 1);
      }
    }
    delete o;
    delete &ro;
  } else {
    Key k = probe();
    Val v = mkval(5000);
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    size_t op = symh::choice(symh::param("nop", 5));
    size_t at = symh::choice(maxf) + 1;
    size_t before = g_allocs;
    g_fail_in = (long)at;
    bool threw = false;
    try {
      switch (op) {
        case 0: t.insert(k, v); break;
        case 1: t.try_emplace(k, v); break;
        case 2: t.insert_or_assign(k, v); break;
        case 3: t[k] = v; break;
        default: t.emplace(k, v);
      }
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    bool fired = g_fail_in == 0;
    g_fail_in = 0;
    CHECK_MSG(threw == fired, "allocation failure not reported to the caller");
    if (threw) {
      if (at == 1) COVER("first allocation fails");
      if (at == 2) COVER("second allocation fails");
      if (at == 3) COVER("third allocation fails");
      CHECK_MSG(g_kind_live[0] == l0, "leaf lost or leaked");
      // internal nodes may have been split already, but none may be lost: destruction below accounts for them
    } else {
      if (!has) r.ins(pos, k, v);
      else if (op == 2 || op == 3) r.v[pos] = v;
      if (g_allocs == before) COVER("no allocation needed");
    }
  }
  (void)l1;
  verify(t, r);
  finds(t, r);
  // still usable, erasures and lookups do not allocate
  for (size_t q = 0; q < symh::param("after", 1); q++) {
    Key k = probe();
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    if (symh::choice(2)) {
      auto res = t.insert(k, mkval(5001));
      CHECK(res.second == !has);
      if (!has) r.ins(pos, k, mkval(5001));
      at_pos(t, r, res.first, pos);
    } else {
      size_t b = g_allocs;
      at_pos(t, r, t.find(k), has ? pos : r.n);
      CHECK(t.erase(k) == (has ? 1 : 0));
      CHECK_MSG(g_allocs == b, "erasing allocates");
      if (has) r.del(pos);
    }
    verify(t, r);
  }
  if (symh::param("wipe", 0)) while (r.n) { size_t b = g_allocs; t.erase(r.k[r.n / 2]); r.del(r.n / 2); CHECK(g_allocs == b); verify(t, r); }
  symh::observe(t.size());
  delete &t;
  CHECK(g_kind_live[0] == 0 && g_kind_live[1] == 0);
  delete &r;
}
