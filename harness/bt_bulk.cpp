// C18: construction from a sequence with arbitrary order and duplicates.
#include "bt.h"
struct Node { std::pair<Key, Val> e; Node* next; };
struct FwdIt {  // minimal forward iterator over a list
  using iterator_category = std::forward_iterator_tag;
  using value_type = std::pair<Key, Val>;
  using difference_type = std::ptrdiff_t;
  using pointer = const value_type*;
  using reference = const value_type&;
  Node* p;
  const value_type& operator*() const { return p->e; }
  const value_type* operator->() const { return &p->e; }
  FwdIt& operator++() { p = p->next; return *this; }
  FwdIt operator++(int) { FwdIt o = *this; p = p->next; return o; }
  bool operator==(const FwdIt& o) const { return p == o.p; }
  bool operator!=(const FwdIt& o) const { return p != o.p; }
};
struct Src { const std::pair<Key, Val>* a; size_t i, n; };
struct InIt {  // single pass: all copies draw from one source
  using iterator_category = std::input_iterator_tag;
  using value_type = std::pair<const Key, Val>;
  using difference_type = std::ptrdiff_t;
  using pointer = const value_type*;
  using reference = value_type;
  Src* s = nullptr;
  std::pair<Key, Val> e{};
  InIt() = default;
  explicit InIt(Src* x) : s(x) { next(); }
  void next() { if (s->i < s->n) e = s->a[s->i++]; else s = nullptr; }
  struct Arrow { value_type v; const value_type* operator->() const { return &v; } };
  value_type operator*() const { return value_type(e.first, e.second); }
  Arrow operator->() const { return Arrow{value_type(e.first, e.second)}; }
  InIt& operator++() { next(); return *this; }
  InIt operator++(int) { InIt o = *this; next(); return o; }
  bool operator==(const InIt& o) const { return s == o.s; }
  bool operator!=(const InIt& o) const { return s != o.s; }
};
extern "C" void harness_main() {
  Ref& r = *new Ref();
  size_t m = symh::param("m", 3), pre = symh::param("pre", 0), varm = symh::param("varm", 1);
  if (varm) m = symh::choice(m + 1);
  std::pair<Key, Val>* a = static_cast<std::pair<Key, Val>*>(::operator new(sizeof(std::pair<Key, Val>) * (m + pre + 1)));
  size_t n = 0;
  uint64_t s = symh::param("seed", 1);
  size_t order = pre ? symh::choice(3) : 0;
  for (size_t i = 0; i < pre; i++) {  // a concrete part that makes the tree deep
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    long x = order == 0 ? (long)i : order == 1 ? (long)(pre - i) : (long)((s >> 40) % (pre * 2));
    a[n++] = {fromInt<Key>(x), mkval(i)};
  }
  size_t sp = pre ? symh::choice(2) : 0;  // arbitrary part after or before the concrete part
  for (size_t i = 0; i < m; i++) a[n++] = {Mk<Key>::make(), Mk<Val>::make()};
  if (sp) { std::pair<Key, Val>* b = static_cast<std::pair<Key, Val>*>(::operator new(sizeof(std::pair<Key, Val>) * (n + 1))); for (size_t i = 0; i < n; i++) b[i] = a[(i + pre) % n]; ::operator delete(a); a = b; }
  for (size_t i = 0; i < n; i++) {
    size_t pos = r.lb(a[i].first);
    if (r.has(pos, a[i].first)) { COVER("duplicate"); continue; }
    r.ins(pos, a[i].first, a[i].second);
  }
  if (n == 0) COVER("empty");
  Tree* t = nullptr;
  size_t how = symh::choice(pre || n > 4 ? 3 : 5);
  if (n > 4 || pre) { if (how == 2) how = 4; }
  if (how == 0) t = new Tree(static_cast<const std::pair<Key, Val>*>(a), static_cast<const std::pair<Key, Val>*>(a) + n);
  else if (how == 1) {
    Node* l = nullptr;
    for (size_t i = n; i-- > 0;) l = new Node{a[i], l};
    t = new Tree(FwdIt{l}, FwdIt{nullptr});
    while (l) { Node* x = l; l = l->next; delete x; }
    COVER("forward iterators");
  } else if (how == 2) {
    switch (n) {
      case 0: t = new Tree(std::initializer_list<std::pair<Key, Val>>{}); break;
      case 1: t = new Tree({a[0]}); break;
      case 2: t = new Tree({a[0], a[1]}); break;
      case 3: t = new Tree({a[0], a[1], a[2]}); break;
      default: t = new Tree({a[0], a[1], a[2], a[3]});
    }
    COVER("initializer list");
  } else if (how == 4) {
    Src src{a, 0, n};
    t = new Tree(InIt(&src), InIt());
    COVER("single-pass iterators");
  } else {  // from another tree's iterators
    Tree o(static_cast<const std::pair<Key, Val>*>(a), static_cast<const std::pair<Key, Val>*>(a) + n);
    t = new Tree(o.begin(), o.end());
  }
  verify(*t, r);
  finds(*t, r);
  if (symh::param("after", 1)) {  // and it is an ordinary tree afterwards
    Key k = Mk<Key>::make();
    size_t pos = r.lb(k);
    bool has = r.has(pos, k);
    CHECK(t->erase(k) == (has ? 1 : 0));
    if (has) r.del(pos);
    else { CHECK(t->insert(k, mkval(4)).second); r.ins(pos, k, mkval(4)); }
    verify(*t, r);
  }
  symh::observe(t->size());
  delete t;
  ::operator delete(a);
  delete &r;
}
