// C25, C26: which pool an allocator of a type uses. Two policies over pools that
// may be shared (a policy's two pools may be one), allocators of a leaf-like, an
// internal-like, a plain and a both-like type, rebound from one another; pools so
// small that they run out and may not grow. mode=1: the factories and the sizes
// a pool is made with.
#include "pool.h"
#include "stl_rt.h"
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
using namespace kressler::fast_containers;
struct Leaf { uint64_t w[6]; Leaf* next_leaf; };
struct Inner { bool children_are_leaves; uint64_t w[4]; };
struct Plain { uint64_t w[3]; };
struct alignas(128) Wide { uint64_t w[20]; void* next_leaf; };
template <class T> using Al = PolicyBasedHugePageAllocator<T, TwoPoolPolicy>;
static std::shared_ptr<HugePagePool> pools[3];
struct Held { uint64_t p; size_t pool, type; };
static Held held[16];
static size_t nheld;
struct Seen { uint64_t allocs, frees, left; };
static Seen look(size_t i) { return Seen{pools[i]->get_allocations(), pools[i]->get_deallocations(), pools[i]->bytes_remaining()}; }
// designated pool of a type under a policy over pools[l], pools[i]
template <class T> static size_t want(size_t l, size_t i) { return std::is_same_v<T, Inner> ? i : l; }
template <class T> constexpr size_t type_id() { return std::is_same_v<T, Leaf> ? 0 : std::is_same_v<T, Inner> ? 1 : std::is_same_v<T, Plain> ? 2 : 3; }
template <class T> static void use(Al<T>& a, size_t pool, size_t other, bool take) {
  Seen s[3];
  for (size_t i = 0; i < 3; i++) s[i] = look(i);
  if (take) {
    size_t r0 = g_refused;
    T* p = nullptr;
    try { p = a.allocate(1); } catch (const std::bad_alloc&) {}
    bool grows = symh::param("growth", 4096);
    CHECK_MSG(p != nullptr || !grows || g_refused > r0, "refused though memory was granted");
    for (size_t i = 0; i < 3; i++) {
      Seen n = look(i);
      bool mine = i == pool && p != nullptr;
      CHECK_MSG(n.allocs == s[i].allocs + (mine ? 1 : 0) && n.frees == s[i].frees, "taken from another pool than the designated one");
      if (i != pool) CHECK_MSG(n.left == s[i].left, "another pool than the designated one gave up memory");
    }
    if (!p) { COVER("pool exhausted"); return; }
    COVER("takes");
    block_ok((uint64_t)p, sizeof(T), alignof(T) > 64 ? alignof(T) : 64);
    block_add((uint64_t)p, sizeof(T), 64);
    held[nheld++] = Held{(uint64_t)p, pool, type_id<T>()};
  } else {
    if (other >= nheld || held[other].pool != pool || held[other].type != type_id<T>()) symh_stop();
    uint64_t p = held[other].p;
    for (size_t b = 0; b < g_nblk; b++) if (g_blk[b].live && g_blk[b].p == p) g_blk[b].live = false;
    a.deallocate((T*)p, 1);
    held[other] = held[--nheld];
    COVER("gives back");
    for (size_t i = 0; i < 3; i++) {
      Seen n = look(i);
      CHECK_MSG(n.frees == s[i].frees + (i == pool ? 1 : 0) && n.allocs == s[i].allocs, "given back to another pool than the designated one");
    }
  }
}
template <class T, class S> static void eq(const Al<T>& a, size_t pa, const Al<S>& b, size_t pb) {
  bool same = pa == pb;
  CHECK_MSG((a == b) == same && (a != b) == !same && (b == a) == same, "equality is not sharing of the designated pool");
}
static void route() {
  for (size_t i = 0; i < 3; i++) pools[i] = std::make_shared<HugePagePool>(symh::param("init", 256), false, symh::param("growth", 4096));
  size_t l1 = 0, i1 = symh::choice(2), l2 = symh::choice(3), i2 = symh::choice(3);
  TwoPoolPolicy p1(pools[l1], pools[i1]), p2(pools[l2], pools[i2]);
  CHECK(p1.get_pool_for_type<Leaf>() == pools[l1] && p1.get_pool_for_type<Inner>() == pools[i1]);
  CHECK(p1.get_pool_for_type<Plain>() == pools[l1] && p2.get_pool_for_type<Wide>() == pools[l2]);
  // every type from either policy, directly or through another type
  Al<Plain> a1(p1), a2(p2);
  Al<Leaf> b1(a1), b2(p2);
  Al<Inner> c1(p1), c2(b2);
  Al<Wide> d1(c1), d2(p2);
  Al<Plain> e1(d1), e2(c2);
  Al<Inner> f1(e1);
  struct { size_t a1, b1, c1, d1, a2, b2, c2, d2; } w{want<Plain>(l1, i1), want<Leaf>(l1, i1), want<Inner>(l1, i1), want<Wide>(l1, i1), want<Plain>(l2, i2), want<Leaf>(l2, i2), want<Inner>(l2, i2), want<Wide>(l2, i2)};
  auto all = [&](const auto& x, size_t px) {
    eq(x, px, a1, w.a1); eq(x, px, b1, w.b1); eq(x, px, c1, w.c1); eq(x, px, d1, w.d1); eq(x, px, e1, w.a1); eq(x, px, f1, w.c1);
    eq(x, px, a2, w.a2); eq(x, px, b2, w.b2); eq(x, px, c2, w.c2); eq(x, px, d2, w.d2); eq(x, px, e2, w.a2);
  };
  all(a1, w.a1); all(b1, w.b1); all(c1, w.c1); all(d1, w.d1); all(e1, w.a1); all(f1, w.c1);
  all(a2, w.a2); all(b2, w.b2); all(c2, w.c2); all(d2, w.d2); all(e2, w.a2);
  CHECK(a2.get_policy().leaf_pool_ == pools[l2] && f1.get_policy().internal_pool_ == pools[i1]);
  size_t nops = symh::param("ops", 3);
  g_may_refuse = symh::param("refuse", 0);
  for (size_t q = 0; q < nops; q++) {
    bool take = symh::choice(2);
    size_t k = take ? 0 : symh::choice(nops);
    switch (symh::choice(8)) {
      case 0: use(a1, w.a1, k, take); break;
      case 1: use(b1, w.b1, k, take); break;
      case 2: use(f1, w.c1, k, take); break;
      case 3: use(d1, w.d1, k, take); break;
      case 4: use(e2, w.a2, k, take); break;
      case 5: use(b2, w.b2, k, take); break;
      case 6: use(c2, w.c2, k, take); break;
      default: use(d2, w.d2, k, take); break;
    }
  }
  CHECK_MSG(g_nmap >= 3, "pools map their memory");
  for (auto& p : pools) p.reset();
}
// the sizes and page kinds pools are made with reach the operating system
static bool mapped(size_t from, uint64_t len, bool huge) {
  bool hit = false;
  for (size_t i = from; i < g_nmap; i++) hit |= (g_map[i].huge == huge) & (page_up(g_map[i].len, huge) == page_up(len, huge));
  return hit;
}
static void sizes() {
  g_fict = true;
  symh_far(FLO, FHI);
  g_huge_ok = symh::choice(2);
  bool huge = symh::choice(2), is = huge && g_huge_ok;
  // page counts that keep the mappings' first touches few
  uint64_t a = symh_sym(64), b = symh_sym(64), c = symh_sym(64), d = symh_sym(64), cap = symh::param("cap", 4) * HP;
  symh::assume((a > 0) & (b > 0) & (a <= cap) & (b <= cap) & (c <= cap) & (d <= cap));
  switch (symh::choice(3)) {
    case 0: {
      auto x = make_two_pool_allocator<int32_t, int64_t>(a, b, huge, c, d);
      const TwoPoolPolicy& p = x.get_policy();
      CHECK(p.leaf_pool_ != p.internal_pool_);
      CHECK_MSG(p.leaf_pool_->initial_size() == a && p.internal_pool_->initial_size() == b, "initial sizes of the two pools");
      CHECK_MSG(p.leaf_pool_->growth_size() == c && p.internal_pool_->growth_size() == d, "growth sizes of the two pools");
      CHECK_MSG(p.leaf_pool_->using_hugepages() == is && p.internal_pool_->using_hugepages() == is, "kind of pages of the two pools");
      CHECK(g_nmap == 2);
      CHECK_MSG(mapped(0, a, is) && mapped(0, b, is), "memory the two pools map");
      COVER("two pools");
      break;
    }
    case 1: {
      HugePageAllocator<Plain> x(a, huge, c);
      CHECK_MSG(mapped(0, a, is) && x.using_hugepages() == is && x.bytes_remaining() >= a, "memory the pool maps");
      size_t n = g_nmap;
      HugePageAllocator<Leaf> y(x);
      CHECK_MSG(g_nmap == n + 1 && mapped(n, a, is) && y.using_hugepages() == is && y.bytes_remaining() >= a, "memory the pool of a rebound allocator maps");
      COVER("rebound");
      break;
    }
    default: {
      auto x = make_multi_size_hugepage_allocator<Plain>(a, huge, c);
      CHECK(g_nmap == 0 && x.get_pool()->active_size_classes() == 0 && x.get_pool()->get_pool(64) == nullptr);
      if (a < 64 && c < 4096) symh_stop();
      (void)x.allocate(1);
      const HugePagePool* p = x.get_pool()->get_pool(64);
      CHECK(p != nullptr && x.get_pool()->active_size_classes() == 1 && x.get_pool()->get_pools().size() == 1);
      CHECK_MSG(p->initial_size() == a && p->growth_size() == c && p->using_hugepages() == is, "sizes of a class's pool");
      CHECK_MSG(mapped(0, a, is), "memory a class's pool maps");
      COVER("class");
      break;
    }
  }
  all_unmapped();
}
extern "C" void harness_main() {
  if (symh::param("mode", 0)) { sizes(); return; }
  route();
  all_unmapped();
}
