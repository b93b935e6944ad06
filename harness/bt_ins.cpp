// C06: one insertion-family operation with arbitrary key and value on a tree
// of any of the enumerated shapes.
#include "bt.h"
extern "C" void harness_main() {
  Tree& t = *new Tree();
  Ref& r = *new Ref();
  shape(t, r);
  size_t nops = symh::param("ops", 1), opm = symh::param("opmask", 0x7f);
  bool touched = false;
  for (size_t q = 0; q < nops; q++) {
    size_t ops[8], no = 0;
    for (size_t i = 0; i < 7; i++) if (opm >> i & 1) ops[no++] = i;
    size_t op = ops[no == 1 ? 0 : symh::choice(no)];
    Key k = probe();
    Val v = Mk<Val>::make();
    size_t pos = r.lb(k);
    bool has = r.has(pos, k), ok = !has;
    size_t before = t.size();
    Tree::iterator it;
    bool have_it = true;
    switch (op) {
      case 0: std::tie(it, ok) = t.insert(k, v); break;
      case 1: std::tie(it, ok) = t.insert(std::pair<Key, Val>(k, v)); break;
      case 2: std::tie(it, ok) = t.emplace(k, v); break;
      case 3: it = t.emplace_hint(r.n ? t.begin() : t.end(), k, v); break;
      case 4: std::tie(it, ok) = t.try_emplace(k, v); break;
      case 5: std::tie(it, ok) = t.insert_or_assign(k, v); break;
      default: {
        Val& x = t[k];
        if (!has) CHECK(same_bits(x, Val{}));
        else CHECK(same_bits(x, r.v[pos]));
        x = v;
        have_it = false;
      }
    }
    CHECK(ok == !has);
    CHECK(t.size() == before + (has ? 0 : 1));
    if (!has) { r.ins(pos, k, v); COVER("added"); }
    else { COVER("present"); if (op == 5 || op == 6) { r.v[pos] = v; touched = true; } }
    if (have_it) at_pos(t, r, it, pos);
    if (have_it && symh::param("walk", 0)) walk_from(t, r, it, pos);
    verify(t, r);
  }
  (void)touched;
  finds(t, r);
  symh::observe(t.size());
  delete &t;
  delete &r;
}
