// Shared by the dense_map harnesses: the map under test and a reference map.
#pragma once
#include "types.h"
#include <fast_containers/dense_map.hpp>
using namespace kressler::fast_containers;
#ifndef KEY
#define KEY int32_t
#endif
#ifndef VAL
#define VAL int32_t
#endif
#ifndef CAP
#define CAP 4
#endif
#ifndef CMP
#define CMP std::less<KEY>
#endif
#ifndef MODE
#define MODE Linear
#endif
using Key = KEY;
using Val = VAL;
using Cmp = CMP;
constexpr size_t Cap = CAP;
using Map = dense_map<Key, Val, Cap, Cmp, SearchMode::MODE>;

struct Ref {  // ordered map by linear search over the comparator
  Key k[Cap * 2 + 2];
  Val v[Cap * 2 + 2];
  size_t n = 0;
  size_t lb(const Key& x) const { Cmp c; size_t i = 0; while (i < n && c(k[i], x)) i++; return i; }
  bool has(size_t i, const Key& x) const { Cmp c; return i < n && !c(x, k[i]); }
  void ins(size_t i, Key x, Val y) { for (size_t j = n; j > i; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; n++; }
  void del(size_t i) { for (size_t j = i; j + 1 < n; j++) { k[j] = k[j + 1]; v[j] = v[j + 1]; } n--; }
};
template <class M> static void same(M& m, const Ref& r) {
  CHECK(m.size() == r.n);
  CHECK(m.empty() == (r.n == 0));
  CHECK(m.full() == (r.n == m.capacity()));
  size_t i = 0;
  for (auto it = m.begin(); it != m.end(); ++it, ++i) {
    if (i >= r.n) break;
    CHECK(same_bits(it->first, r.k[i]));
    CHECK(same_bits(it->second, r.v[i]));
    obs(it->first);
    obs(it->second);
  }
  CHECK(i == r.n);
}
// n elements with arbitrary strictly increasing keys; slots beyond n hold
// arbitrary stale data when stale is set
static void build(Map& m, Ref& r, size_t n, bool stale = false) {
  Cmp c;
  if (stale && Cap > n) {
    Key p{};
    for (size_t i = 0; i < Cap; i++) {
      Key k = Mk<Key>::make();
      if (i) symh::assume(c(p, k));
      m.insert(k, Mk<Val>::make());
      p = k;
    }
    m.clear();
  }
  for (size_t i = 0; i < n; i++) {
    Key k = Mk<Key>::make();
    if (i) symh::assume(c(r.k[i - 1], k));
    Val v = Mk<Val>::make();
    r.k[i] = k;
    r.v[i] = v;
    r.n = i + 1;
    m.insert(k, v);
  }
}
