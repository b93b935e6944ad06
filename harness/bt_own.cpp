// C16 on trees: owning keys and values through splits, borrows, merges,
// copies and moves.
#include "own.h"
#include <fast_containers/btree.hpp>
using namespace kressler::fast_containers;
#ifndef LEAF
#define LEAF 8
#endif
#ifndef INTN
#define INTN 8
#endif
#ifndef MODE
#define MODE Linear
#endif
#ifdef BOXKEY
using Key = Box;
static Key mk(int32_t x) { return Box(x); }
static int32_t kv(const Key& k) { return k.get(); }
#else
using Key = int32_t;
static Key mk(int32_t x) { return x; }
static int32_t kv(const Key& k) { return k; }
#endif
using Tree = btree<Key, Box, LEAF, INTN, std::less<Key>, SearchMode::MODE>;
struct Ref {
  int32_t k[400], v[400];
  size_t n = 0;
  size_t lb(int32_t x) const { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; if (k[m] < x) lo = m + 1; else hi = m; } return lo; }
  void ins(size_t i, int32_t x, int32_t y) { for (size_t j = n; j > i; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; n++; }
  void del(size_t i) { for (size_t j = i; j + 1 < n; j++) { k[j] = k[j + 1]; v[j] = v[j + 1]; } n--; }
};
static void same(Tree& t, const Ref& r) {
  CHECK(t.size() == r.n);
  size_t i = 0;
  for (auto it = t.begin(); it != t.end(); ++it, ++i) {
    if (i >= r.n) break;
    CHECK(kv(it->first) == r.k[i]);
    CHECK(it->second.get() == r.v[i]);
  }
  CHECK(i == r.n);
}
static void put(Tree& t, Ref& r, int32_t x, int32_t y) {
  size_t p = r.lb(x);
  if (p < r.n && r.k[p] == x) return;
  t.insert(mk(x), Box(y));
  r.ins(p, x, y);
}
extern "C" void harness_main() {
  size_t n = symh::param("n", 30), e = symh::param("e", 8), ns = symh::param("seeds", 4);
  {
    Tree& t = *new Tree();
    static Ref r;
    r.n = 0;
    size_t seed = symh::choice(ns);
    uint64_t s = seed * 77 + 5;
    for (size_t i = 0; i < n; i++) {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      int32_t x = seed == 0 ? (int32_t)i * 3 : seed == 1 ? (int32_t)(n - i) * 3 : (int32_t)((s >> 40) % 1000);
      put(t, r, x, (int32_t)i);
    }
    for (size_t i = 0; i < e && r.n; i++) {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      size_t p = (s >> 33) % r.n;
      CHECK(t.erase(mk(r.k[p])) == 1);
      r.del(p);
    }
    same(t, r);
    for (size_t q = 0; q < symh::param("ops", 1); q++) {
      size_t op = symh::choice(12);
      if (op >= 8) {
        switch (op) {
          case 8: t.clear(); r.n = 0; COVER("clear"); break;
          case 9: { size_t a = symh::choice(r.n / 5 + 1) * 5, b = a + symh::choice((r.n - a) / 5 + 1) * 5; auto f = t.begin(); for (size_t i = 0; i < a; i++) ++f; auto l = f; for (size_t i = a; i < b; i++) ++l; t.erase(f, l); for (size_t i = a; i < b; i++) r.del(a); COVER("range"); break; }
          case 10: { Tree c(t); same(c, r); if (r.n) { c.begin()->second = Box(5); c.erase(c.begin()); } same(t, r); Tree d(std::move(c)); c = t; same(c, r); d = std::move(c); same(d, r); d.swap(t); COVER("copies"); break; }
          default: { if (!r.n) break; size_t p = symh::choice(r.n); auto it = t.begin(); for (size_t i = 0; i < p; i++) ++it; t.erase(it); r.del(p); COVER("erase at"); }
        }
        same(t, r);
        continue;
      }
      int32_t k = symh::sym<int32_t>(), v = symh::sym<int32_t>();
      size_t pos = r.lb(k);
      bool has = pos < r.n && r.k[pos] == k;
      Key key = mk(k);
      Box val(v);
      long before = g_values;
      bool moved = false, assign = false, erased = false;
      int32_t nv = v;
      switch (op) {
        case 0: t.insert(key, val); break;
        case 1: t.insert_or_assign(key, val); assign = true; break;
        case 2: t.insert_or_assign(key, std::move(val)); assign = true; moved = true; break;
        case 3: t.try_emplace(key, val); if (has) CHECK(g_values == before); break;
        case 4: t.try_emplace(key, std::move(val)); moved = !has; if (has) CHECK(g_values == before); break;
        case 5: t.try_emplace(key, v, 3); nv = v ^ 3; CHECK(g_values - before == (has ? 0 : 1)); break;
        case 6: t[key] = val; assign = true; break;
        default: CHECK(t.erase(key) == (has ? 1 : 0)); erased = true; if (has) r.del(pos);
      }
      if (!erased) {
        if (!has) { r.ins(pos, k, nv); COVER("added"); } else { COVER("present"); if (assign) r.v[pos] = nv; }
      }
      if (!moved) CHECK(val.get() == v);
      CHECK(kv(key) == k);
      same(t, r);
    }
    symh::observe(t.size());
    if (symh::param("wipe", 0)) { while (r.n) { t.erase(t.begin()); r.del(0); if (r.n % 7 == 0) same(t, r); } }
    delete &t;
  }
  CHECK_MSG(g_objs == 0, "objects constructed and not destroyed");
}
