// C04: split_at, transfer_prefix_from, transfer_suffix_from.
#include "dm.h"
#ifndef OCAP
#define OCAP CAP
#endif
using Other = dense_map<Key, Val, OCAP, Cmp, SearchMode::MODE>;
struct Item { Key k; Val v; };
template <class M> static void expect(M& m, const Item* it, size_t n) {
  CHECK(m.size() == n);
  size_t i = 0;
  for (auto x = m.begin(); x != m.end(); ++x, ++i) {
    if (i >= n) break;
    CHECK(same_bits(x->first, it[i].k));
    CHECK(same_bits(x->second, it[i].v));
    obs(x->first);
    obs(x->second);
  }
  CHECK(i == n);
  for (size_t j = 0; j < n; j++) {
    auto f = m.find(it[j].k);
    CHECK(f != m.end() && f.index() == j);
  }
}
extern "C" void harness_main() {
  // a: n elements, b: q elements; the keys of all of them are increasing, and
  // those of the receiving map lie where the operation requires
  size_t n = symh::choice(Cap + 1), q = symh::choice(OCAP + 1);
  size_t op = symh::choice(3);
  Map& a = *new Map();
  Other& b = *new Other();
  static Item s[Cap + OCAP + 1];
  Cmp c;
  for (size_t i = 0; i < n + q; i++) {
    s[i].k = Mk<Key>::make();
    if (i) symh::assume(c(s[i - 1].k, s[i].k));
    s[i].v = Mk<Val>::make();
  }
  // op 0: split a into b; op 1: b takes a prefix of a (b's keys before a's);
  // op 2: b takes a suffix of a (a's keys before b's)
  size_t a0 = op == 1 ? q : 0, b0 = op == 1 ? 0 : n;
  for (size_t i = 0; i < n; i++) a.insert(s[a0 + i].k, s[a0 + i].v);
  for (size_t i = 0; i < q; i++) b.insert(s[b0 + i].k, s[b0 + i].v);
  bool threw = false;
  if (op == 0) {
    size_t at = symh::choice(n + 1);
    try { a.split_at(a.begin() + at, b); } catch (const std::runtime_error&) { threw = true; }
    bool bad = q != 0 || n - at > OCAP;
    CHECK(threw == bad);
    if (bad) { COVER("refused split"); expect(a, s, n); expect(b, s + n, q); }
    else { COVER("split"); expect(a, s, at); expect(b, s + at, n - at); }
  } else {
    size_t cnt = symh::choice(Cap + 3);
    if (cnt == Cap + 2) { cnt = symh::sym<size_t>(); symh::assume(cnt > Cap); }  // any excessive count
    try { if (op == 1) b.transfer_prefix_from(a, cnt); else b.transfer_suffix_from(a, cnt); }
    catch (const std::runtime_error&) { threw = true; }
    bool bad = cnt > n || q + cnt > OCAP;
    CHECK(threw == bad);
    if (bad) { COVER("refused transfer"); expect(a, s + a0, n); expect(b, s + b0, q); }
    else if (op == 1) { COVER("prefix"); expect(b, s, q + cnt); expect(a, s + q + cnt, n - cnt); }
    else { COVER("suffix"); expect(a, s, n - cnt); expect(b, s + n - cnt, cnt + q); }
  }
  // both stay usable
  if (!a.full()) {
    Key k = Mk<Key>::make();
    size_t before = a.size();
    auto r = a.insert(k, Val{});
    CHECK(r.first->first == k);
    CHECK(a.size() == before + r.second);
  }
  delete &a;
  delete &b;
}
