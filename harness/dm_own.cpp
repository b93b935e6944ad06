// C16 on dense maps: owning keys and values through every operation.
#include "own.h"
#include <fast_containers/dense_map.hpp>
using namespace kressler::fast_containers;
#ifndef CAP
#define CAP 4
#endif
#ifndef MODE
#define MODE Linear
#endif
#ifdef BOXKEY
using Key = Box;
static Key mk(int32_t x) { return Box(x); }
static int32_t kv(const Key& k) { return k.get(); }
#else
using Key = int32_t;
static Key mk(int32_t x) { return x; }
static int32_t kv(const Key& k) { return k; }
#endif
using Map = dense_map<Key, Box, CAP, std::less<Key>, SearchMode::MODE>;
struct Ref {
  int32_t k[CAP * 2 + 1], v[CAP * 2 + 1];
  size_t n = 0;
  size_t lb(int32_t x) const { size_t i = 0; while (i < n && k[i] < x) i++; return i; }
  void ins(size_t i, int32_t x, int32_t y) { for (size_t j = n; j > i; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; n++; }
  void del(size_t i) { for (size_t j = i; j + 1 < n; j++) { k[j] = k[j + 1]; v[j] = v[j + 1]; } n--; }
};
static void same(Map& m, const Ref& r) {
  CHECK(m.size() == r.n);
  size_t i = 0;
  for (auto it = m.begin(); it != m.end(); ++it, ++i) {
    if (i >= r.n) break;
    CHECK(kv(it->first) == r.k[i]);
    CHECK(it->second.get() == r.v[i]);
    symh::observe(it->second.get());
  }
  CHECK(i == r.n);
}
static void one(Map& m, Ref& r, size_t op) {
  if (op == 7) { m.clear(); r.n = 0; return; }
  if (op == 8) {
    if (!r.n) return;
    size_t i = symh::choice(r.n);
    m.erase(m.begin() + i);
    r.del(i);
    return;
  }
  int32_t k = symh::sym<int32_t>(), v = symh::sym<int32_t>();
  size_t pos = r.lb(k);
  bool has = pos < r.n && r.k[pos] == k, threw = false, full = r.n == CAP;
  Key key = mk(k);
  Box val(v);
  long before = g_values;
  try {
    switch (op) {
      case 0: m.insert(key, val); break;
      case 1: m.insert_or_assign(key, val); break;
      case 2: m.insert_or_assign(key, std::move(val)); break;
      case 3: m.try_emplace(key, val); break;
      case 4: m.try_emplace(key, std::move(val)); break;
      case 5: m.try_emplace(key, v, 0); break;
      case 6: CHECK(m.erase(key) == (has ? 1u : 0u)); break;
      case 9: m[key] = val; break;
      case 10: m.insert_hint(m.lower_bound(key), key, val); break;
    }
  } catch (const std::runtime_error&) { threw = true; }
#ifdef BOXKEY
  CHECK(kv(key) == k);
#endif
  if (op == 6) { if (has) r.del(pos); return; }
  if (threw) {
    CHECK(full);
    COVER("refused");
  } else if (!has) r.ins(pos, k, v);
  else if (op == 1 || op == 2 || op == 9) r.v[pos] = v;
  bool stored = !threw && (!has || op == 1 || op == 2 || op == 9);
  if (has && op >= 3 && op <= 5) { CHECK_MSG(g_values == before, "try_emplace built a value although the key exists"); COVER("exists"); }
  if (op != 2 && op != 4) CHECK(val.get() == v);      // lvalues are never touched
  else if (!stored) CHECK_MSG(val.has() && val.get() == v, "rvalue moved although not stored");
}
extern "C" void harness_main() {
  size_t n = symh::choice(symh::param("maxn", CAP) + 1), nops = symh::param("ops", 1);
  uint64_t live0 = symh_heap_live();
  {
    Map& m = *new Map();
    Ref r;
    for (size_t i = 0; i < n; i++) {
      int32_t k = symh::sym<int32_t>(), v = symh::sym<int32_t>();
      if (i) symh::assume(r.k[i - 1] < k);
      r.ins(i, k, v);
      m.insert(mk(k), Box(v));
    }
    size_t kind = symh::choice(4);
    if (kind == 0) {
      for (size_t t = 0; t < nops; t++) { one(m, r, symh::choice(11)); same(m, r); }
    } else if (kind == 1) {
      Map& b = *new Map(m);
      same(b, r);
      same(m, r);
      Map& c = *new Map(std::move(b));
      same(c, r);
      CHECK(b.empty());
      b = c;
      same(b, r);
      same(c, r);
      m.clear();
      m = std::move(c);
      same(m, r);
      CHECK(c.empty());
      Ref e0;
      one(c, e0, 1);
      delete &b;
      delete &c;
      COVER("copies");
    } else {
      Map& o = *new Map();
      size_t at = symh::choice(n + 1);
      Ref lo = r, hi;
      for (size_t i = at; i < n; i++) hi.ins(hi.n, r.k[i], r.v[i]);
      lo.n = at;
      m.split_at(m.begin() + at, o);
      same(m, lo);
      same(o, hi);
      if (kind == 2) {
        size_t c = symh::choice(hi.n + 1);
        m.transfer_prefix_from(o, c);
        for (size_t i = 0; i < c; i++) { lo.ins(lo.n, hi.k[0], hi.v[0]); hi.del(0); }
      } else {
        size_t c = symh::choice(lo.n + 1);
        o.transfer_suffix_from(m, c);
        for (size_t i = 0; i < c; i++) { hi.ins(0, lo.k[lo.n - 1], lo.v[lo.n - 1]); lo.n--; }
      }
      same(m, lo);
      same(o, hi);
      delete &o;
      COVER("transfers");
    }
    delete &m;
  }
  CHECK_MSG(g_objs == 0, "objects constructed and destroyed out of balance");
  CHECK_MSG(symh_heap_live() == live0, "owned memory leaked");
}
