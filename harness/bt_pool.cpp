// C26 (with C12, C13): trees whose nodes come from pools. WHICH: 0 HugePageAllocator,
// 1 PolicyBased with TwoPoolPolicy, 2 MultiSizeHugePageAllocator. Two trees of one
// type and one of another (other node sizes) share pools where the allocator can.
#include "pool.h"
#include "stl_rt.h"
#include "types.h"
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
using namespace kressler::fast_containers;
#ifndef LEAF
#define LEAF 8
#endif
#ifndef INTN
#define INTN 8
#endif
static uint64_t g_init, g_growth;
#if WHICH == 0
template <class V> using Al = HugePageAllocator<std::pair<int32_t, V>>;
template <class V> static Al<V> make() { return Al<V>(g_init, false, g_growth); }
#elif WHICH == 1
template <class V> using Al = PolicyBasedHugePageAllocator<std::pair<int32_t, V>, TwoPoolPolicy>;
template <class V> static Al<V> make() {
#ifdef FACTORY
  return make_two_pool_allocator<int32_t, V>(g_init, g_init, false, g_growth, g_growth);
#else
  return Al<V>(TwoPoolPolicy(std::make_shared<HugePagePool>(g_init, false, g_growth), std::make_shared<HugePagePool>(g_init, false, g_growth)));
#endif
}
#else
template <class V> using Al = MultiSizeHugePageAllocator<std::pair<int32_t, V>>;
template <class V> static Al<V> make() { return make_multi_size_hugepage_allocator<std::pair<int32_t, V>>(g_init, false, g_growth); }
#endif
template <class V> using Tree = btree<int32_t, V, LEAF, INTN, std::less<int32_t>, SearchMode::Linear, Al<V>>;
template <class V> struct Ref {
  int32_t k[400];
  V v[400];
  size_t n = 0;
  size_t lb(int32_t x) const { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; if (k[m] < x) lo = m + 1; else hi = m; } return lo; }
  bool has(size_t i, int32_t x) const { return i < n && k[i] == x; }
  void ins(size_t i, int32_t x, V y) { for (size_t j = n; j > i; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; n++; }
  void del(size_t i) { for (size_t j = i; j + 1 < n; j++) { k[j] = k[j + 1]; v[j] = v[j + 1]; } n--; }
};
template <class V> static V val(size_t i) { if constexpr (std::is_same_v<V, V32>) return V32{{i, ~i, i + 1, i ^ 0x5555}}; else return (V)i; }
template <class V> static void same(Tree<V>& t, const Ref<V>& r) {
  CHECK(t.size() == r.n);
  size_t i = 0;
  for (auto it = t.begin(); it != t.end(); ++it, ++i) {
    if (i >= r.n) break;
    CHECK(it->first == r.k[i] && it->second == r.v[i]);
  }
  CHECK(i == r.n);
}
template <class V> static void put(Tree<V>& t, Ref<V>& r, int32_t x, size_t y) {
  size_t p = r.lb(x);
  bool has = r.has(p, x);
  auto res = t.insert(x, val<V>(y));
  CHECK(res.second == !has && res.first->first == x);
  if (!has) r.ins(p, x, val<V>(y));
}
template <class V> static void drop(Tree<V>& t, Ref<V>& r, int32_t x) {
  size_t p = r.lb(x);
  bool has = r.has(p, x);
  CHECK(t.erase(x) == (has ? 1 : 0));
  if (has) r.del(p);
}
template <class V> static void fill(Tree<V>& t, Ref<V>& r, size_t n, size_t e, uint64_t s) {
  for (size_t i = 0; i < n; i++) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    put(t, r, s & 1 ? (int32_t)i * 3 : (int32_t)((s >> 40) % 1000), i);
  }
  for (size_t i = 0; i < e && r.n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; drop(t, r, r.k[(s >> 33) % r.n]); }
}
#if WHICH == 1 && defined(ALLOCATOR_STATS)
struct Use { size_t n, bytes; };
static Use use(HugePagePool& p) { return Use{p.get_allocations() - p.get_deallocations(), p.get_current_usage()}; }
// what a tree of n elements keeps in each pool
static void footprint(const TwoPoolPolicy& pol, size_t na, size_t nb, size_t nc, bool only) {
  Use l = use(*pol.leaf_pool_), i = use(*pol.internal_pool_);
  size_t n = na + nb + nc, least = (na + LEAF - 1) / LEAF + (nb + LEAF - 1) / LEAF + (nc + LEAF - 1) / LEAF;
  CHECK_MSG(l.n >= least && l.n <= n + 3, "number of nodes in the leaf pool");
  CHECK_MSG(i.n <= l.n, "more nodes in the internal pool than in the leaf pool");
  size_t big = (na > LEAF) + (nb > LEAF) + (nc > LEAF);
  CHECK_MSG(i.n >= big, "trees of several leaves keep no node in the internal pool");
  if (na <= 3 && nb <= 3 && nc <= 3) CHECK_MSG(i.n == 0, "trees of one leaf keep nodes in the internal pool");
  if (only) {  // one tree type alone: every node of a pool has the same size, a leaf holds its elements
    static size_t lsz, isz;
    if (l.n) { if (!lsz) lsz = l.bytes / l.n; CHECK_MSG(l.bytes == l.n * lsz && lsz >= LEAF * 8, "leaf pool holds nodes of different sizes"); }
    if (i.n) { if (!isz) isz = i.bytes / i.n; CHECK_MSG(i.bytes == i.n * isz && isz >= INTN * 12, "internal pool holds nodes of different sizes"); }
  }
}
#endif
using V1 = int32_t;
using V2 = V32;
extern "C" void harness_main() {
  g_init = symh::param("init", 4096);
  g_growth = symh::param("growth", 16384);
  bool other = symh::param("other", 1);
  size_t n = symh::param("n", 40), seeds = symh::param("seeds", 2);
  {
    Al<V1> a1 = make<V1>();
#if WHICH == 0
    Al<V1> a1b = symh::choice(2) ? a1 : make<V1>();
    Al<V2> a2 = make<V2>();
#else
    // shared, or each tree with pools of its own
    bool share = symh::choice(2);
    Al<V1> a1b = share ? a1 : make<V1>();
    Al<V2> a2 = share ? Al<V2>(a1) : make<V2>();
#endif
    auto* a = new Tree<V1>(a1);
    auto* b = new Tree<V1>(a1b);
    auto* c = new Tree<V2>(a2);
    static Ref<V1> ra, rb;
    static Ref<V2> rc;
    size_t seed = symh::choice(seeds);
    fill(*a, ra, n, n / 4, seed * 3 + 1);
    if (other) fill(*c, rc, n / 2, n / 8, seed * 5 + 2);
    fill(*b, rb, n / 2, n / 5, seed * 7 + 4);
    size_t mask = symh::param("mask", 0x7ff), nops = symh::param("ops", 2);
    for (size_t q = 0; q < nops; q++) {
      size_t ops[16], no = 0;
      for (size_t i = 0; i < 16; i++) if (mask >> i & 1) ops[no++] = i;
      switch (ops[symh::choice(no)]) {
        case 0: put(*a, ra, symh::sym<int32_t>(), 900); COVER("insert"); break;
        case 1: drop(*a, ra, symh::sym<int32_t>()); COVER("erase"); break;
        case 2: if (other) put(*c, rc, symh::sym<int32_t>(), 901); break;
        case 3: if (other) drop(*c, rc, symh::sym<int32_t>()); break;
        case 4: a->clear(); ra.n = 0; COVER("clear"); break;
        case 5: { auto* t = new Tree<V1>(*a); delete b; b = t; rb = ra; COVER("copy"); break; }
        case 6: { auto* t = new Tree<V1>(std::move(*a)); delete b; b = t; rb = ra; ra.n = 0; COVER("move"); break; }
        case 7: *b = *a; rb = ra; COVER("copy assign"); break;
        case 8: *b = std::move(*a); rb = ra; ra.n = 0; COVER("move assign"); break;
        case 9: { a->swap(*b); static Ref<V1> t; t = ra; ra = rb; rb = t; COVER("swap"); break; }
        case 10: { delete b; b = new Tree<V1>(a1b); rb.n = 0; fill(*b, rb, n / 3, 0, 99 + q); COVER("rebuild"); break; }
        case 11: while (ra.n) drop(*a, ra, ra.k[ra.n / 2]); break;
        default: break;
      }
      same(*a, ra);
      same(*b, rb);
      same(*c, rc);
#if WHICH == 1 && defined(ALLOCATOR_STATS)
      if (share) footprint(a1.get_policy(), ra.n, rb.n, rc.n, false);
      if (!share) footprint(a2.get_policy(), rc.n, 0, 0, true);
#endif
    }
    for (size_t i = 0; i < ra.n; i++) { auto it = a->find(ra.k[i]); CHECK(it != a->end() && it->second == ra.v[i]); }
    symh::observe(a->size());
    symh::observe(b->size());
    if (symh::choice(2)) { delete a; a = nullptr; same(*b, rb); put(*b, rb, 2000, 1); put(*b, rb, 2001, 2); same(*b, rb); }
    delete b;
    same(*c, rc);
    delete c;
    if (a) { same(*a, ra); put(*a, ra, 3000, 5); same(*a, ra); delete a; }
#if WHICH == 1 && defined(ALLOCATOR_STATS)
    for (auto* x : {&a1.get_policy(), &a1b.get_policy(), &a2.get_policy()}) {
      CHECK_MSG(use(*x->leaf_pool_).n == 0 && use(*x->leaf_pool_).bytes == 0, "nodes never returned to the leaf pool, or returned to another");
      CHECK_MSG(use(*x->internal_pool_).n == 0 && use(*x->internal_pool_).bytes == 0, "nodes never returned to the internal pool, or returned to another");
    }
#endif
  }
  all_unmapped();
}
