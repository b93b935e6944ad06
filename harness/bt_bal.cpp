// C11: node fill and lookup cost after an arbitrary history.
#include "alloc.h"
#include "types.h"
inline size_t g_cmps = 0;
template <class T> struct CountLess { bool operator()(const T& a, const T& b) const { g_cmps++; return a < b; } };
#define ALLOC PA<std::pair<KEY, VAL>>
#ifndef KEY
#define KEY int32_t
#endif
#ifdef COUNT
#define CMP CountLess<KEY>
#endif
#include "bt.h"
static size_t thr(size_t n) { size_t m = (n + 1) / 2; return m - m / 4; }  // documented: half full, minus a quarter of that as hysteresis
static size_t lg(size_t n) { size_t l = 0; while (n > 1) { l++; n = (n + 1) / 2; } return l; }
static void filled(Tree& t) {
  size_t n = t.size(), leaves = (size_t)g_kind_live[0], ints = (size_t)g_kind_live[1];
  CHECK(leaves >= 1);
  CHECK(leaves == 1 || leaves * thr(LEAF) <= n);
  CHECK(leaves * LEAF >= n);
  CHECK(leaves > 1 || ints == 0);
  if (leaves > 1) {
    size_t ti = thr(INTN);
    CHECK(ints >= 1);
    CHECK(ints * (ti - 1) + 3 <= leaves + ti);
  }
}
static size_t max_height(size_t leaves) {  // internal levels, root has at least 2 children, others at least thr
  size_t h = 0, c = 1;
  for (size_t f = 2; c * f <= leaves; f = thr(INTN)) { c *= f; h++; }
  return h;
}
extern "C" void harness_main() {
  Tree& t = *new Tree();
  Ref& r = *new Ref();
  shape(t, r);
  filled(t);
  size_t nops = symh::param("ops", 1), run = symh::param("run", 0);
  for (size_t q = 0; q < nops; q++) {
    Key k = probe();
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    size_t l0 = (size_t)g_kind_live[0];
    if (has) { t.erase(k); r.del(pos); } else { t.insert(k, mkval(q)); r.ins(pos, k, mkval(q)); }
    if ((size_t)g_kind_live[0] > l0) COVER("split");
    if ((size_t)g_kind_live[0] < l0) COVER("merge");
    filled(t);
    // a run of erasures starting there
    for (size_t i = 0; i < run && pos < r.n; i++) {
      Key x = r.k[pos];
      l0 = (size_t)g_kind_live[0];
      t.erase(x);
      r.del(pos);
      if ((size_t)g_kind_live[0] < l0) COVER("merge");
      filled(t);
    }
  }
#ifdef COUNT
  const Tree& ct = t;
  Key k = probe();
  size_t li = SearchMode::MODE == SearchMode::Linear ? INTN + 2 : lg(INTN) + 3;
  size_t ll = SearchMode::MODE == SearchMode::Linear ? LEAF + 3 : lg(LEAF) + 4;
  size_t bound = max_height((size_t)g_kind_live[0]) * li + ll;
  size_t which = symh::choice(5);
  g_cmps = 0;
  if (which == 0) (void)ct.find(k);
  else if (which == 1) (void)ct.contains(k);
  else if (which == 2) (void)t.lower_bound(k);
  else if (which == 3) (void)t.upper_bound(k);
  else { (void)t.equal_range(k); bound += 2; }
  CHECK_MSG(g_cmps <= bound, "lookup compares more keys than the height of the tree allows");
  symh::observe(g_cmps);
#endif
  verify(t, r);
  symh::observe(t.size());
  while (symh::param("empty", 0) && r.n) {  // and all the way down
    size_t p = symh::param("empty", 0) == 1 ? 0 : r.n - 1;
    Key x = r.k[p];
    CHECK(t.erase(x) == 1);
    r.del(p);
    filled(t);
  }
  t.clear();
  CHECK(g_kind_live[0] == 1 && g_kind_live[1] == 0);
  delete &t;
  CHECK(g_kind_live[0] == 0 && g_kind_live[1] == 0);
  delete &r;
}
