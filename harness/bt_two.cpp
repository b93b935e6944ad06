// C12, C13: copying, moving, swapping and assigning between two trees, each
// with its own pool, followed by use of both.
#include "alloc.h"
#define ALLOC PA<std::pair<KEY, VAL>>
#include "bt.h"
static void fill(Tree& t, Ref& r, size_t n, size_t base, size_t e) {
  Rng rng(base + 1);
  for (size_t i = 0; i < n; i++) {
    Key k = fromInt<Key>((long)(base + (base ? rng(4 * n) : i * 3)));
    size_t p = r.lb(k);
    if (r.has(p, k)) continue;
    t.insert(k, mkval(i));
    r.ins(p, k, mkval(i));
  }
  for (size_t i = 0; i < e && r.n; i++) { size_t p = rng(r.n); Key k = r.k[p]; t.erase(k); r.del(p); }
}
static void mutate(Tree& t, Ref& r) {
  size_t op = symh::choice(4);
  if (op == 0) return;
  if (op == 3) { t.clear(); r.n = 0; return; }
  Key k = probe();
  size_t pos = r.lb(k);
  bool has = r.has(pos, k);
  if (op == 1) {
    auto res = t.insert(k, mkval(77));
    CHECK(res.second == !has);
    if (!has) r.ins(pos, k, mkval(77));
    at_pos(t, r, res.first, pos);
  } else {
    CHECK(t.erase(k) == (has ? 1 : 0));
    if (has) r.del(pos);
  }
}
static Tree* mk(bool own) {
  static Pool* shared = nullptr;
  if (own) { PA<std::pair<Key, Val>> a; return new Tree(a); }
  if (!shared) { PA<std::pair<Key, Val>> a; shared = a.p; return new Tree(a); }
  return new Tree(PA<std::pair<Key, Val>>(shared));
}
extern "C" void harness_main() {
  static const size_t SZ[] = {0, 5, 20, 90, 8, 40, 200, 1};
  size_t ns = symh::param("sizes", 4), opm = symh::param("opmask", 0x7f), muts = symh::param("muts", 1);
  bool own = symh::param("own", 1);
  Tree* a = mk(own);
  Tree* b = mk(own);
  Ref& ra = *new Ref();
  Ref& rb = *new Ref();
  size_t ia = symh::choice(ns), ib = symh::choice(ns);
  fill(*a, ra, SZ[ia], 0, 0);
  fill(*b, rb, SZ[ib], 100, SZ[ib] / 3);
  size_t ops[8], no = 0;
  for (size_t i = 0; i < 8; i++) if (opm >> i & 1) ops[no++] = i;
  size_t nops = symh::param("ops", 1);
  for (size_t q = 0; q < nops; q++) {
    switch (ops[symh::choice(no)]) {
      case 0: { Tree* c = new Tree(*a); delete b; b = c; rb = ra; COVER("copy"); break; }
      case 1: { Tree* c = new Tree(std::move(*a)); delete b; b = c; rb = ra; ra.n = 0; COVER("move"); break; }
      case 2: { Tree& x = (*b = *a); CHECK(&x == b); rb = ra; COVER("copy assign"); break; }
      case 3: { Tree& x = (*b = std::move(*a)); CHECK(&x == b); rb = ra; ra.n = 0; COVER("move assign"); break; }
      case 4: { a->swap(*b); Ref& t = *new Ref(ra); ra = rb; rb = t; delete &t; COVER("swap"); break; }
      case 5: { *a = static_cast<const Tree&>(*a); Tree& y = *b; *b = std::move(y); a->swap(*a); COVER("self"); break; }
      case 6: { using std::swap; swap(*a, *b); Ref& t = *new Ref(ra); ra = rb; rb = t; delete &t; COVER("free swap"); break; }
      default: { delete a; a = mk(own); ra.n = 0; break; }
    }
    if (symh::param("first", 0)) { delete a; a = nullptr; break; }
    verify(*a, ra);
    verify(*b, rb);
    for (size_t m = 0; m < muts; m++) {
      if (symh::choice(2)) mutate(*a, ra); else mutate(*b, rb);
    }
    verify(*a, ra);
    verify(*b, rb);
  }
  if (a && symh::choice(2)) { delete a; a = nullptr; }
  verify(*b, rb);
  finds(*b, rb);
  for (size_t m = 0; m < symh::param("late", 1); m++) mutate(*b, rb);
  verify(*b, rb);
  symh::observe(b->size());
  delete b;
  if (a) { verify(*a, ra); delete a; }
  CHECK(g_kind_live[0] == 0 && g_kind_live[1] == 0);
  delete &ra;
  delete &rb;
}
