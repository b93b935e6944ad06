// Shared by the btree harnesses: the tree under test, a reference map, and
// builders that bring a tree into many different shapes through its public
// interface.
#pragma once
#include "types.h"
#include <fast_containers/btree.hpp>
#include <stdexcept>
#include <tuple>
using namespace kressler::fast_containers;
#ifndef KEY
#define KEY int32_t
#endif
#ifndef VAL
#define VAL int32_t
#endif
#ifndef LEAF
#define LEAF 8
#endif
#ifndef INTN
#define INTN 8
#endif
#ifndef CMP
#define CMP std::less<KEY>
#endif
#ifndef MODE
#define MODE Linear
#endif
#ifndef ALLOC
#define ALLOC std::allocator<std::pair<KEY, VAL>>
#endif
using Key = KEY;
using Val = VAL;
using Cmp = CMP;
using Alloc = ALLOC;
using Tree = btree<Key, Val, LEAF, INTN, Cmp, SearchMode::MODE, Alloc>;
#ifndef MAXREF
#define MAXREF 700
#endif
constexpr size_t MAXN = MAXREF;

struct Ref {  // ordered map by search over the comparator
  Key k[MAXN];
  Val v[MAXN];
  size_t n = 0;
  size_t lb(const Key& x) const {  // binary search: fewer case splits on the way to the same position
    Cmp c;
    size_t lo = 0, hi = n;
    while (lo < hi) { size_t m = (lo + hi) / 2; if (c(k[m], x)) lo = m + 1; else hi = m; }
    return lo;
  }
  bool has(size_t i, const Key& x) const { Cmp c; return i < n && !c(x, k[i]); }
  void ins(size_t i, Key x, Val y) { for (size_t j = n; j > i; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; n++; }
  void del(size_t i) { for (size_t j = i; j + 1 < n; j++) { k[j] = k[j + 1]; v[j] = v[j + 1]; } n--; }
  void cut(size_t a, size_t b) { for (size_t j = b; j < n; j++) { k[a + j - b] = k[j]; v[a + j - b] = v[j]; } n -= b - a; }
};
template <class T> static T fromInt(long i) {
  if constexpr (std::is_arithmetic_v<T>) return (T)i;
  else if constexpr (std::is_same_v<T, K16>) return K16{(uint64_t)(i / 8 + 100), (uint64_t)i};
  else if constexpr (std::is_same_v<T, V32>) return V32{{(uint64_t)i, ~(uint64_t)i, (uint64_t)i + 1, (uint64_t)i ^ 0x5555}};
  else if constexpr (std::is_same_v<T, KTag>) return KTag{(int16_t)i, (int16_t)(i * 3)};
  else return T(i);
}
// whole-tree comparison: size, both iteration directions
static void verify(Tree& t, const Ref& r) {
  CHECK(t.size() == r.n);
  CHECK(t.empty() == (r.n == 0));
  size_t i = 0;
  for (auto it = t.begin(); it != t.end(); ++it, ++i) {
    if (i >= r.n) break;
    CHECK(same_bits(it->first, r.k[i]));
    CHECK(same_bits(it->second, r.v[i]));
  }
  CHECK(i == r.n);
  for (auto it = t.rbegin(); it != t.rend(); ++it) {
    if (i == 0) { i = MAXN; break; }
    --i;
    CHECK(same_bits(it->first, r.k[i]));
  }
  CHECK(i == 0);
}
// every stored key is found where it is
static void finds(Tree& t, const Ref& r) {
  const Tree& ct = t;
  for (size_t i = 0; i < r.n; i++) {
    auto it = t.find(r.k[i]);
    CHECK(it != t.end());
    if (it == t.end()) continue;
    CHECK(same_bits(it->first, r.k[i]) && same_bits(it->second, r.v[i]));
    CHECK(ct.contains(r.k[i]));
  }
}
// it designates element i of r, or the end
static void at_pos(Tree& t, const Ref& r, Tree::iterator it, size_t i) {
  if (i >= r.n) {
    CHECK(it == t.end());
    if (r.n == 0 || it != t.end() || it == t.begin()) return;
    --it;
    CHECK(same_bits(it->first, r.k[r.n - 1]));
    return;
  }
  CHECK(it != t.end());
  if (it == t.end()) return;
  CHECK(same_bits(it->first, r.k[i]) && same_bits(it->second, r.v[i]));
  // it can be moved on and back
  auto f = it;
  ++f;
  CHECK((f == t.end()) == (i + 1 == r.n));
  if (i + 1 < r.n && f != t.end()) CHECK(same_bits(f->first, r.k[i + 1]));
  --f;
  CHECK(f == it);
  CHECK((it == t.begin()) == (i == 0));
  if (i == 0 || it == t.begin()) return;
  auto b = it;
  --b;
  CHECK(same_bits(b->first, r.k[i - 1]));
  ++b;
  CHECK(b == it);
}
// walking on from it visits exactly the rest
static void walk_from(Tree& t, const Ref& r, Tree::iterator it, size_t i) {
  at_pos(t, r, it, i);
  for (; i < r.n && it != t.end(); ++i, ++it) CHECK(same_bits(it->first, r.k[i]));
  CHECK(i == r.n && it == t.end());
}
// ------------------------------------------------------------------ keys
static Key* g_keys;        // sorted pool of keys
static size_t g_nkeys;
static void make_keys(size_t m, bool symbolic) {
  Cmp c;
  g_keys = static_cast<Key*>(::operator new(m * sizeof(Key)));
  g_nkeys = m;
  bool desc = c(fromInt<Key>(2), fromInt<Key>(1));
  for (size_t i = 0; i < m; i++) {
    if (symbolic) {
      g_keys[i] = Mk<Key>::make();
      if (i) symh::assume(c(g_keys[i - 1], g_keys[i]));
    } else {
      long x = desc ? (long)(m - 1 - i) : (long)i;
      g_keys[i] = fromInt<Key>(sizeof(Key) == 1 ? x : x * 5 + 20);
    }
  }
}
static Val mkval(size_t i) { return fromInt<Val>((long)i * 3 + 1); }
static void put(Tree& t, Ref& r, size_t slot) {
  Key k = g_keys[slot];
  size_t p = r.lb(k);
  if (r.has(p, k)) return;
  t.insert(k, mkval(slot));
  r.ins(p, k, mkval(slot));
}
static void drop(Tree& t, Ref& r, size_t slot) {
  Key k = g_keys[slot];
  size_t p = r.lb(k);
  if (!r.has(p, k)) return;
  t.erase(k);
  r.del(p);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 12345) {}
  size_t operator()(size_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (size_t)((s >> 33) % n); }
};
// The part of the key space a tree of kind 3 or 4 was varied in: probes and
// positions are taken from there.
static bool g_win;
static Key g_klo, g_khi;
static Key probe() {
  Key k = Mk<Key>::make();
  if (g_win) { Cmp c; symh::assume(!c(k, g_klo)); symh::assume(!c(g_khi, k)); }
  return k;
}
static void window(const Ref& r, size_t& a, size_t& b) {  // positions [a, b]
  a = 0; b = r.n;
  if (g_win) { a = r.lb(g_klo); b = r.lb(g_khi); }
}
// shape kinds
//  0 leaves: g leaves, each with any number of elements from the list in mask
//  1 seeded: a pseudo random insertion order of n keys, then e erasures
//  2 run: keys inserted in ascending/descending/zigzag/random order, then a run erased
//  3 window: g leaves; any w neighbours, wherever their parents are, each given any of the sizes in mask
//  4 burst: g leaves; any number (up to burst, in steps) of keys inserted into any one of them, then
//    any number (up to drain leaves) of neighbours erased from any point
static void shape(Tree& t, Ref& r) {
  size_t kind = symh::param("kind", 0);
  bool symk = symh::param("symk", 1);
  if (kind == 0) {
    size_t g = symh::param("g", 3), mask = symh::param("mask", 0x138);  // bit s: size s allowed
    if (symh::param("anyg", 0)) g = symh::choice(g + 1);
    size_t half = (LEAF + 1) / 2;
    make_keys(g * LEAF + 1, symk);
    size_t sz[8];
    for (size_t i = 0; i < g; i++) {
      size_t opts[70], no = 0;
      for (size_t s = 0; s <= LEAF && s < 64; s++) if (mask >> s & 1) opts[no++] = s;
      sz[i] = opts[symh::choice(no)];
    }
    for (size_t i = 0; i < g; i++) for (size_t j = 0; j < half; j++) put(t, r, i * LEAF + j);
    if (g > 1) put(t, r, (g - 1) * LEAF + half);
    for (size_t i = 0; i < g; i++) {
      for (size_t j = half; j < sz[i]; j++) put(t, r, i * LEAF + j);
      for (size_t j = sz[i]; j <= half && j < LEAF; j++) drop(t, r, i * LEAF + j);
    }
  } else if (kind == 1) {
    size_t n = symh::param("n", 60), e = symh::param("e", 20), s0 = symh::param("seed0", 0), ns = symh::param("seeds", 4);
    size_t seed = s0 + symh::choice(ns);
    if (symh::param("varn", 0)) n -= symh::choice(symh::param("varn", 0));
    make_keys(n, symk);
    Rng rng(seed);
    static size_t perm[MAXN];
    for (size_t i = 0; i < n; i++) perm[i] = (seed % 4 == 1) ? n - 1 - i : i;
    if (seed % 4 >= 2) for (size_t i = n; i > 1; i--) { size_t j = rng(i), x = perm[i - 1]; perm[i - 1] = perm[j]; perm[j] = x; }
    for (size_t i = 0; i < n; i++) put(t, r, perm[i]);
    for (size_t i = 0; i < e; i++) drop(t, r, rng(n));
  } else if (kind >= 3) {
    constexpr size_t half = (LEAF + 1) / 2;
    size_t g = symh::param("g", 18), S = kind == 3 ? LEAF : LEAF + symh::param("burst", 16), w = kind == 3 ? symh::param("w", 2) : 1;
    size_t order = symh::param("order", 0);  // 0 ascending, 1 descending, 2 one of both
    if (order == 2) order = symh::choice(2);
    make_keys(g * S + 1, symk);
    if (order == 0) for (size_t i = 0; i < g; i++) for (size_t j = 0; j < half; j++) put(t, r, i * S + j);
    else for (size_t i = g; i-- > 0;) for (size_t j = half; j-- > 0;) put(t, r, i * S + j);
    size_t pstep = symh::param("pstep", 1), p = symh::choice((g - w) / pstep + 1) * pstep, near = symh::param("near", 1);
    size_t lo = p, hi = p + w;
    if (kind == 3) {
      size_t mask = symh::param("mask", 0x118), opts[70], no = 0;
      for (size_t s = 0; s <= LEAF && s < 64; s++) if (mask >> s & 1) opts[no++] = s;
      size_t sz[8];
      for (size_t i = 0; i < w; i++) sz[i] = opts[symh::choice(no)];
      for (size_t i = 0; i < w; i++) {
        for (size_t j = half; j < sz[i]; j++) put(t, r, (p + i) * S + j);
        for (size_t j = sz[i]; j < half; j++) drop(t, r, (p + i) * S + j);
      }
    } else {
      size_t bs = symh::param("bstep", 1), b = symh::choice(symh::param("burst", 16) / bs + 1) * bs;
      for (size_t j = 0; j < b; j++) put(t, r, p * S + half + j);
      size_t d = symh::param("drain", 0);
      if (d) {
        size_t ds = symh::param("dstep", 1), from = symh::choice(g / ds) * ds, cnt = symh::choice(d + 1);
        size_t rev = symh::param("rev", 0), e = from + cnt < g ? from + cnt : g;
        if (rev == 2) rev = symh::choice(2);
        if (!rev) for (size_t i = from * S; i < e * S; i++) drop(t, r, i);
        else for (size_t i = e * S; i-- > from * S;) drop(t, r, i);
        if (cnt) { lo = from; hi = from + cnt; }
      }
    }
    if (near < 100) {
      lo = lo > near ? lo - near : 0;
      hi = hi + near < g ? hi + near : g;
      g_win = true;
      g_klo = g_keys[lo * S];
      g_khi = g_keys[hi * S];
      if (hi == g) g_khi = g_keys[g * S];
    }
  } else {
    size_t n = symh::param("n", 60), order = symh::param("order", 3), step = symh::param("step", 4);
    size_t o = order < 3 ? order : order == 4 ? 3 + symh::choice(symh::param("seeds", 2)) : symh::choice(3);
    make_keys(n, symk);
    static size_t perm[MAXN];
    for (size_t i = 0; i < n; i++) perm[i] = o == 0 || o > 2 ? i : o == 1 ? n - 1 - i : (i & 1) ? n - 1 - i / 2 : i / 2;
    if (o > 2) {
      Rng rng(o);
      for (size_t i = n; i > 1; i--) { size_t j = rng(i), x = perm[i - 1]; perm[i - 1] = perm[j]; perm[j] = x; }
    }
    for (size_t i = 0; i < n; i++) put(t, r, perm[i]);
    size_t a = symh::choice(n / step) * step, l = symh::choice((n - a) / step + 1) * step;
    size_t rev = symh::param("rev", 0);  // erased upwards, downwards, either
    if (rev == 2) rev = symh::choice(2);
    for (size_t i = 0; i < l; i++) drop(t, r, rev ? a + l - 1 - i : a + i);
  }
  ::operator delete(g_keys);
}
