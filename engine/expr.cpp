#include <algorithm>
#include "expr.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>

static std::vector<const Expr*> g_tab(1 << 20, nullptr);
static size_t g_n = 0;
static char* g_cur = nullptr;
static size_t g_left = 0;
static void* arena(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (n > g_left) {
    size_t blk = 1 << 20;
    if (n > blk) blk = n;
    g_cur = (char*)aligned_alloc(64, (blk + 63) & ~size_t(63));
    g_left = blk;
  }
  void* p = g_cur;
  g_cur += n;
  g_left -= n;
  return p;
}
size_t numExprs() { return g_n; }
u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mix(u64 h, u64 x) {
  h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}
static E intern(u8 op, unsigned w, u128 c, E a, E b, E d, unsigned nk) {
  u64 h = mix(mix(mix(mix(mix(op * 131 + w, (u64)c), (u64)(c >> 64)), (u64)a), (u64)b), (u64)d);
  size_t i = h & (g_tab.size() - 1);
  for (E e = g_tab[i]; e; e = e->hnext)
    if (e->hash == h && e->op == op && e->width == w && e->c == c && e->k[0] == a &&
        e->k[1] == b && e->k[2] == d && e->ak == nullptr)
      return e;
  Expr* e = new (arena(sizeof(Expr))) Expr();
  e->op = op; e->width = (u16)w; e->id = (u32)g_n++; e->nk = nk; e->c = c;
  e->k[0] = a; e->k[1] = b; e->k[2] = d; e->ak = nullptr; e->hash = h;
  e->evStamp = 0; e->z3bv = e->z3bool = nullptr; e->ordS = e->ordU = -1;
  e->hnext = g_tab[i];
  g_tab[i] = e;
  if (g_n > g_tab.size()) {
    std::vector<const Expr*> nt(g_tab.size() * 4, nullptr);
    for (E x : g_tab)
      while (x) {
        E nx = x->hnext;
        size_t j = x->hash & (nt.size() - 1);
        const_cast<Expr*>(x)->hnext = nt[j];
        nt[j] = x;
        x = nx;
      }
    g_tab.swap(nt);
  }
  return e;
}
E mkAgg(const std::vector<E>& kids) {
  Expr* e = new (arena(sizeof(Expr))) Expr();
  e->op = O_AGG; e->width = 0; e->id = 0; e->nk = (u32)kids.size(); e->c = 0;
  e->k[0] = e->k[1] = e->k[2] = nullptr; e->hash = 0; e->hnext = nullptr;
  e->ak = (const Expr**)arena(sizeof(E) * (kids.size() + 1));
  for (size_t i = 0; i < kids.size(); i++) e->ak[i] = kids[i];
  return e;
}
static E smallConst[9][256];
E mkConst(u128 v, unsigned w) {
  v &= maskw(w);
  if (v < 256) {
    int s = w == 1 ? 0 : w == 8 ? 1 : w == 32 ? 2 : w == 64 ? 3 : w == 16 ? 4 : -1;
    if (s >= 0) {
      E& r = smallConst[s][(u64)v];
      if (!r) r = intern(O_CONST, w, v, 0, 0, 0, 0);
      return r;
    }
  }
  return intern(O_CONST, w, v, 0, 0, 0, 0);
}
static std::unordered_map<std::string, E> g_vars;
static std::vector<E> g_varl;
static std::vector<std::string> g_varn;
E mkVar(const std::string& name, unsigned w) {
  auto it = g_vars.find(name);
  if (it != g_vars.end()) return it->second;
  E e = intern(O_VAR, w, g_varl.size(), 0, 0, 0, 0);
  g_vars[name] = e;
  g_varl.push_back(e);
  g_varn.push_back(name);
  return e;
}
const std::string& varName(E v) { return g_varn[(size_t)v->c]; }
unsigned numVars() { return (unsigned)g_varl.size(); }
E varByIndex(unsigned i) { return g_varl[i]; }

static inline __int128 sx(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  return (__int128)((v ^ s) - s);
}
static u128 evalOp(u8 op, unsigned w, u128 a, u128 b, unsigned kw) {
  u128 m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m;
    case O_UREM: return b ? a % b : a;
    case O_SDIV: {
      if (!b) return sx(a, w) < 0 ? 1 : m;
      if (sx(b, w) == -1) return (0 - a) & m;
      return (u128)(sx(a, w) / sx(b, w)) & m;
    }
    case O_SREM: {
      if (!b) return a;
      if (sx(b, w) == -1) return 0;
      return (u128)(sx(a, w) % sx(b, w)) & m;
    }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: return (u128)(sx(a, w) >> (b >= w ? w - 1 : (unsigned)b)) & m;
    case O_ULT: return a < b;
    case O_SLT: return sx(a, kw) < sx(b, kw);
    case O_EQ: return a == b;
  }
  abort();
}
#define BOTHC (a->isConst() && b->isConst())
static inline E foldBin(u8 op, E a, E b) { return mkConst(evalOp(op, a->width, a->c, b->c, a->width), a->width); }
static inline E foldCmp(u8 op, E a, E b) { return mkConst(evalOp(op, 1, a->c, b->c, a->width), 1); }
static inline bool isOnes(E e) { return e->isConst() && e->c == maskw(e->width); }
static inline bool isZero(E e) { return e->isConst() && e->c == 0; }
static inline void order(E& a, E& b) {
  if (a->isConst() || (!b->isConst() && a->id > b->id)) { E t = a; a = b; b = t; }
}
// ite with two constant arms: push unary/const ops inside
static inline bool iteConst(E e) { return e->op == O_ITE && e->k[1]->isConst() && e->k[2]->isConst(); }

// ---- sums: kept as c1*t1 + c2*t2 + ... + const, terms in order of creation
struct Lin {
  static const int MAX = 12;
  E t[MAX];
  u128 c[MAX];
  int n = 0;
  u128 k = 0;
  u128 m;
  bool add(E e, u128 f) {
    for (int i = 0; i < n; i++) if (t[i] == e) { c[i] = (c[i] + f) & m; return true; }
    if (n == MAX) return false;
    t[n] = e;
    c[n++] = f & m;
    return true;
  }
  bool put(E e, u128 f, int depth = 0) {
    if (depth > 2 * MAX) return add(e, f);
    if (e->isConst()) { k = (k + e->c * f) & m; return true; }
    if (e->op == O_ADD) return put(e->k[0], f, depth + 1) && put(e->k[1], f, depth + 1);
    if (e->op == O_MUL && e->k[1]->isConst()) return put(e->k[0], f * e->k[1]->c & m, depth + 1);
    if (e->op == O_SHL && e->k[1]->isConst() && e->k[1]->c < e->width) return put(e->k[0], (f << (unsigned)e->k[1]->c) & m, depth + 1);
    return add(e, f);
  }
  void tidy() {
    int o = 0;
    for (int i = 0; i < n; i++) if (c[i]) { t[o] = t[i]; c[o++] = c[i]; }
    n = o;
    for (int i = 1; i < n; i++) for (int j = i; j > 0 && t[j - 1]->id > t[j]->id; j--) { std::swap(t[j], t[j - 1]); std::swap(c[j], c[j - 1]); }
  }
  static E scaled(E e, u128 f, unsigned w) {
    if (f == 1) return e;
    if ((f & (f - 1)) == 0) { unsigned s = 0; while (!((f >> s) & 1)) s++; return intern(O_SHL, w, 0, e, mkConst(s, w), 0, 2); }
    return intern(O_MUL, w, 0, e, mkConst(f, w), 0, 2);
  }
  E build(unsigned w) const {
    E r = nullptr;
    for (int i = 0; i < n; i++) {
      E x = scaled(t[i], c[i], w);
      r = r ? intern(O_ADD, w, 0, r, x, 0, 2) : x;
    }
    if (!r) return mkConst(k, w);
    return k ? intern(O_ADD, w, 0, r, mkConst(k, w), 0, 2) : r;
  }
};
static inline bool sumLike(E e) { return e->op == O_ADD || ((e->op == O_MUL || e->op == O_SHL) && e->k[1]->isConst()); }
E mkAdd(E a, E b) {
  if (BOTHC) return foldBin(O_ADD, a, b);
  order(a, b);
  if (isZero(b)) return a;
  unsigned w = a->width;
  if (w == 1) return mkXor(a, b);
  if (b->isConst()) {
    if (a->op == O_ADD && a->k[1]->isConst()) return mkAdd(a->k[0], mkConst(a->k[1]->c + b->c, w));
    if (iteConst(a)) return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
    if (a->op == O_CONCAT && a->k[1]->isConst()) {  // known low bits
      unsigned lw = a->k[1]->width;
      u128 low = a->k[1]->c + (b->c & maskw(lw));
      return mkConcat(mkAdd(a->k[0], mkConst((b->c >> lw) + (low >> lw), w - lw)), mkConst(low, lw));
    }
    return intern(O_ADD, w, 0, a, b, 0, 2);
  }
  if (!sumLike(a) && !sumLike(b) && a != b) return intern(O_ADD, w, 0, a, b, 0, 2);
  Lin l;
  l.m = maskw(w);
  if (!l.put(a, 1) || !l.put(b, 1)) return intern(O_ADD, w, 0, a, b, 0, 2);
  l.tidy();
  return l.build(w);
}
E mkSub(E a, E b) {
  if (a == b) return mkConst(0, a->width);
  if (b->isConst()) return mkAdd(a, mkConst(0 - b->c, b->width));
  return mkAdd(a, mkMul(b, mkConst(maskw(b->width), b->width)));
}
E mkMul(E a, E b) {
  if (BOTHC) return foldBin(O_MUL, a, b);
  order(a, b);
  if (b->isConst()) {
    if (b->c == 0) return b;
    if (b->c == 1) return a;
    if ((b->c & (b->c - 1)) == 0) {
      unsigned s = 0;
      while (!((b->c >> s) & 1)) s++;
      return mkShl(a, mkConst(s, a->width));
    }
    if (a->op == O_MUL && a->k[1]->isConst()) return mkMul(a->k[0], mkConst(a->k[1]->c * b->c, a->width));
    if (iteConst(a)) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
    // (x + c) * -1 -> x*-1 + -c, so differences cancel
    if (a->op == O_ADD && a->k[1]->isConst() )
      return mkAdd(mkMul(a->k[0], b), mkConst(a->k[1]->c * b->c, a->width));
    if (a->op == O_ADD && isOnes(b)) {
      Lin l;
      l.m = maskw(a->width);
      if (l.put(a, b->c)) { l.tidy(); return l.build(a->width); }
    }
  }
  return intern(O_MUL, a->width, 0, a, b, 0, 2);
}
static int log2c(E b) {
  if (!b->isConst() || b->c == 0 || (b->c & (b->c - 1))) return -1;
  int s = 0;
  while (!((b->c >> s) & 1)) s++;
  return s;
}
E mkUDiv(E a, E b) {
  if (BOTHC) return foldBin(O_UDIV, a, b);
  int s = log2c(b);
  if (s >= 0) return mkLShr(a, mkConst(s, a->width));
  return intern(O_UDIV, a->width, 0, a, b, 0, 2);
}
E mkURem(E a, E b) {
  if (BOTHC) return foldBin(O_UREM, a, b);
  int s = log2c(b);
  if (s >= 0) return mkAnd(a, mkConst(b->c - 1, a->width));
  return intern(O_UREM, a->width, 0, a, b, 0, 2);
}
E mkSDiv(E a, E b) {
  if (BOTHC) return foldBin(O_SDIV, a, b);
  if (b->isConst() && b->c == 1) return a;
  return intern(O_SDIV, a->width, 0, a, b, 0, 2);
}
E mkSRem(E a, E b) {
  if (BOTHC) return foldBin(O_SREM, a, b);
  return intern(O_SREM, a->width, 0, a, b, 0, 2);
}
E mkNot(E a) { return mkXor(a, mkConst(maskw(a->width), a->width)); }
// split const/expr bitwise op along a concat
static bool splitConcat(u8 op, E a, E b, E& out) {
  if (a->op != O_CONCAT) return false;
  if (!(b->isConst() || (b->op == O_CONCAT && b->k[1]->width == a->k[1]->width))) return false;
  unsigned lw = a->k[1]->width, hw = a->k[0]->width;
  E bh = mkExtract(b, lw, hw), bl = mkExtract(b, 0, lw);
  E h = op == O_AND ? mkAnd(a->k[0], bh) : op == O_OR ? mkOr(a->k[0], bh) : mkXor(a->k[0], bh);
  E l = op == O_AND ? mkAnd(a->k[1], bl) : op == O_OR ? mkOr(a->k[1], bl) : mkXor(a->k[1], bl);
  out = mkConcat(h, l);
  return true;
}
E mkAnd(E a, E b) {
  if (a == b) return a;
  if (BOTHC) return foldBin(O_AND, a, b);
  order(a, b);
  if (isZero(b)) return b;
  if (isOnes(b)) return a;
  E r;
  if (splitConcat(O_AND, a, b, r)) return r;
  if (!b->isConst() && splitConcat(O_AND, b, a, r)) return r;
  unsigned w = a->width;
  if (w == 1) {
    if (notOperand(a) == b || notOperand(b) == a) return mkConst(0, 1);
    if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b;
    if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a;
  }
  if (b->isConst()) {
    if (a->op == O_AND && a->k[1]->isConst()) return mkAnd(a->k[0], mkConst(a->k[1]->c & b->c, w));
    if (iteConst(a)) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
    // contiguous mask -> concat(0, extract, 0)
    u128 m = b->c;
    unsigned lo = 0;
    while (!((m >> lo) & 1)) lo++;
    u128 t = m >> lo;
    if (((t + 1) & t) == 0) {
      unsigned n = 0;
      while (n < 128 && ((t >> n) & 1)) n++;
      E x = mkExtract(a, lo, n);
      if (lo) x = mkConcat(x, mkConst(0, lo));
      return mkZExt(x, w);
    }
  }
  return intern(O_AND, w, 0, a, b, 0, 2);
}
E mkOr(E a, E b) {
  if (a == b) return a;
  if (BOTHC) return foldBin(O_OR, a, b);
  order(a, b);
  if (isZero(b)) return a;
  if (isOnes(b)) return b;
  if (a->width == 1) {
    if (notOperand(a) == b || notOperand(b) == a) return mkConst(1, 1);
    // normal form: not(and(not a, not b))
    return mkNot(mkAnd(mkNot(a), mkNot(b)));
  }
  E r;
  if (splitConcat(O_OR, a, b, r)) return r;
  if (!b->isConst() && splitConcat(O_OR, b, a, r)) return r;
  if (b->isConst() && iteConst(a)) return mkIte(a->k[0], mkOr(a->k[1], b), mkOr(a->k[2], b));
  return intern(O_OR, a->width, 0, a, b, 0, 2);
}
E mkXor(E a, E b) {
  if (a == b) return mkConst(0, a->width);
  if (BOTHC) return foldBin(O_XOR, a, b);
  order(a, b);
  if (isZero(b)) return a;
  if (b->isConst() && a->op == O_XOR && a->k[1]->isConst())
    return mkXor(a->k[0], mkConst(a->k[1]->c ^ b->c, a->width));
  E r;
  if (splitConcat(O_XOR, a, b, r)) return r;
  if (!b->isConst() && splitConcat(O_XOR, b, a, r)) return r;
  if (b->isConst() && iteConst(a)) return mkIte(a->k[0], mkXor(a->k[1], b), mkXor(a->k[2], b));
  if (b->isConst() && a->op == O_SEXT && isOnes(b)) return mkSExt(mkNot(a->k[0]), a->width);
  if (a->width == 1 && !b->isConst()) {
    // pull negations out
    E na = notOperand(a), nb = notOperand(b);
    if (na && nb) return mkXor(na, nb);
    if (na) return mkNot(mkXor(na, b));
    if (nb) return mkNot(mkXor(a, nb));
  }
  return intern(O_XOR, a->width, 0, a, b, 0, 2);
}
E mkShl(E a, E b) {
  if (BOTHC) return foldBin(O_SHL, a, b);
  if (b->isConst()) {
    if (b->c == 0) return a;
    if (b->c >= a->width) return mkConst(0, a->width);
    unsigned s = (unsigned)b->c;
    return mkConcat(mkExtract(a, 0, a->width - s), mkConst(0, s));
  }
  if (isZero(a)) return a;
  return intern(O_SHL, a->width, 0, a, b, 0, 2);
}
E mkLShr(E a, E b) {
  if (BOTHC) return foldBin(O_LSHR, a, b);
  if (b->isConst()) {
    if (b->c == 0) return a;
    if (b->c >= a->width) return mkConst(0, a->width);
    unsigned s = (unsigned)b->c;
    return mkZExt(mkExtract(a, s, a->width - s), a->width);
  }
  if (isZero(a)) return a;
  return intern(O_LSHR, a->width, 0, a, b, 0, 2);
}
E mkAShr(E a, E b) {
  if (BOTHC) return foldBin(O_ASHR, a, b);
  if (b->isConst()) {
    if (b->c == 0) return a;
    unsigned s = b->c >= a->width ? a->width - 1 : (unsigned)b->c;
    return mkSExt(mkExtract(a, s, a->width - s), a->width);
  }
  return intern(O_ASHR, a->width, 0, a, b, 0, 2);
}
static inline bool isZExt(E e) { return e->op == O_CONCAT && isZero(e->k[0]); }
E mkEq(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (BOTHC) return mkConst(0, 1);
  order(a, b);
  if (a->width == 1) return b->isConst() ? (b->c ? a : mkNot(a)) : mkNot(mkXor(a, b));
  if (b->isConst()) {
    if (a->op == O_CONCAT) {
      unsigned lw = a->k[1]->width, hw = a->k[0]->width;
      E l = mkEq(a->k[1], mkExtract(b, 0, lw));
      if (l->isFalse()) return l;
      return mkAnd(mkEq(a->k[0], mkExtract(b, lw, hw)), l);
    }
    if (a->op == O_SEXT) {
      E t = mkExtract(b, 0, a->k[0]->width);
      if (mkSExt(t, a->width) != b) return mkConst(0, 1);
      return mkEq(a->k[0], t);
    }
    if (a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst()))
      return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
    if (a->op == O_ADD && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, a->width));
    if (a->op == O_XOR && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, a->width));
    if (a->op == O_MUL && isOnes(a->k[1])) return mkEq(a->k[0], mkConst(0 - b->c, a->width));
    if (a->op == O_ADD && a->k[1]->op == O_MUL && isOnes(a->k[1]->k[1])) return mkEq(a->k[0], mkAdd(a->k[1]->k[0], b));
    if (a->op == O_ADD && a->k[0]->op == O_MUL && isOnes(a->k[0]->k[1])) return mkEq(a->k[1], mkAdd(a->k[0]->k[0], b));
  } else {
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->width == b->k[1]->width)
      return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
    if (a->op == O_ADD && b->op == O_ADD && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
    if (a->op == O_ADD || b->op == O_ADD) {  // cancel common terms
      Lin l, la, lb;
      u128 m = l.m = la.m = lb.m = maskw(a->width);
      if (l.put(a, 1) && l.put(b, m) && la.put(a, 1) && lb.put(b, 1)) {
        int before = la.n + lb.n;
        l.tidy();
        if (l.n < before) {
          Lin x, y;
          x.m = y.m = m;
          for (int i = 0; i < l.n; i++) if (l.c[i] >> (a->width - 1) & 1) y.add(l.t[i], (0 - l.c[i]) & m); else x.add(l.t[i], l.c[i]);
          if (x.n >= y.n && y.n) y.k = (0 - l.k) & m; else if (x.n) y.k = (0 - l.k) & m; else x.k = l.k;
          E p = x.build(a->width), q = y.build(a->width);
          return mkEq(p, q);
        }
      }
    }
  }
  return intern(O_EQ, 1, 0, a, b, 0, 2);
}
E mkUlt(E a, E b) {
  if (a == b) return mkConst(0, 1);
  if (BOTHC) return foldCmp(O_ULT, a, b);
  unsigned w = a->width;
  if (isZero(b) || isOnes(a)) return mkConst(0, 1);
  if (w == 1) return mkAnd(mkNot(a), b);
  if (isZero(a)) return mkNot(mkEq(b, a));
  if (b->isConst() && b->c == 1) return mkEq(a, mkConst(0, w));
  if (isOnes(b)) return mkNot(mkEq(a, b));
  if (isZExt(a) && isZExt(b) && a->k[0]->width == b->k[0]->width) return mkUlt(a->k[1], b->k[1]);
  if (isZExt(a) && b->isConst()) {
    unsigned lw = a->k[1]->width;
    if (b->c > maskw(lw)) return mkConst(1, 1);
    return mkUlt(a->k[1], mkConst(b->c, lw));
  }
  if (isZExt(b) && a->isConst()) {
    unsigned lw = b->k[1]->width;
    if (a->c >= maskw(lw)) return mkConst(0, 1);
    return mkUlt(mkConst(a->c, lw), b->k[1]);
  }
  if (b->isConst() && iteConst(a)) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  if (a->isConst() && iteConst(b)) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  // sign-bit flipped operands: unsigned compare is a signed one and back
  u128 sb = (u128)1 << (w - 1);
  auto flip = [&](E e) -> E {
    if (e->isConst()) return mkConst(e->c ^ sb, w);
    if (e->op == O_XOR && e->k[1]->isConst() && e->k[1]->c == sb) return e->k[0];
    if (e->op == O_CONCAT && e->k[0]->width == 1 && notOperand(e->k[0])) return mkConcat(notOperand(e->k[0]), e->k[1]);
    if (e->op == O_ADD && e->k[1]->isConst() && e->k[1]->c == sb) return e->k[0];
    return nullptr;
  };
  if (!a->isConst() || !b->isConst()) {
    E fa = flip(a), fb = flip(b);
    if (fa && fb && (!a->isConst() ? true : true)) {
      return mkSlt(fa, fb);
    }
  }
  return intern(O_ULT, 1, 0, a, b, 0, 2);
}
E mkSlt(E a, E b) {
  if (a == b) return mkConst(0, 1);
  if (BOTHC) return foldCmp(O_SLT, a, b);
  unsigned w = a->width;
  if (w == 1) return mkAnd(a, mkNot(b));
  u128 smin = (u128)1 << (w - 1), smax = smin - 1;
  if (b->isConst() && b->c == smin) return mkConst(0, 1);
  if (a->isConst() && a->c == smax) return mkConst(0, 1);
  if (a->isConst() && a->c == smin) return mkNot(mkEq(b, a));
  if (b->isConst() && b->c == smax) return mkNot(mkEq(a, b));
  // sign test of a concat: look at the top bit only
  if (isZero(b)) {
    E t = mkExtract(a, w - 1, 1);
    if (!(t->op == O_EXTRACT && t->k[0] == a)) return t;
  }
  if (b->isConst() && b->c == maskw(w) && a->op == O_CONCAT) { /* a < -1 : keep */ }
  if (a->isConst() && a->c == maskw(w)) {  // -1 < b  <=> b >= 0
    E t = mkExtract(b, w - 1, 1);
    if (!(t->op == O_EXTRACT && t->k[0] == b)) return mkNot(t);
    return mkNot(mkSlt(b, mkConst(0, w)));
  }
  bool za = isZExt(a), zb = isZExt(b);
  if ((za && (zb || (b->isConst() && !(b->c & smin)))) || (zb && a->isConst() && !(a->c & smin))) return mkUlt(a, b);
  if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return mkSlt(a->k[0], b->k[0]);
  if (b->isConst() && iteConst(a)) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (a->isConst() && iteConst(b)) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  // both operands sign-flipped (SIMD unsigned compare idiom)
  auto flipped = [&](E e) -> E {
    if (e->op == O_XOR && e->k[1]->isConst() && e->k[1]->c == smin) return e->k[0];
    if (e->op == O_CONCAT && e->k[0]->width == 1 && notOperand(e->k[0])) return mkConcat(notOperand(e->k[0]), e->k[1]);
    if (e->op == O_ADD && e->k[1]->isConst() && e->k[1]->c == smin) return e->k[0];
    return nullptr;
  };
  E fa = flipped(a), fb = flipped(b);
  if (fa && fb) return intern(O_ULT, 1, 0, fa, fb, 0, 2);
  if (fa && b->isConst()) return intern(O_ULT, 1, 0, fa, mkConst(b->c ^ smin, w), 0, 2);
  if (fb && a->isConst()) return intern(O_ULT, 1, 0, mkConst(a->c ^ smin, w), fb, 0, 2);
  return intern(O_SLT, 1, 0, a, b, 0, 2);
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (E n = notOperand(c)) return mkIte(n, b, a);
  if (a->width == 1) {
    if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  } else if (a->isConst() && b->isConst()) {
    unsigned w = a->width;
    if (a->c == maskw(w) && b->c == 0) return mkSExt(c, w);
    if (b->c == maskw(w) && a->c == 0) return mkSExt(mkNot(c), w);
    if (a->c == 1 && b->c == 0) return mkZExt(c, w);
    if (b->c == 1 && a->c == 0) return mkZExt(mkNot(c), w);
  }
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(O_ITE, a->width, 0, c, a, b, 3);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (w > 128) { fprintf(stderr, "expr: width %u too large\n", w); abort(); }
  if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->width) | lo->c, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->width)
    return mkExtract(hi->k[0], (unsigned)lo->c, w);
  if (hi->op == O_EXTRACT && hi->c == lo->width && (hi->k[0]->op == O_ADD || hi->k[0]->op == O_MUL) && mkExtract(hi->k[0], 0, lo->width) == lo)
    return mkExtract(hi->k[0], 0, w);
  // right-nested normal form: concat(concat(a,b),c) -> concat(a, concat(b,c))
  if (hi->op == O_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (lo->op == O_CONCAT) {
    E m = lo->k[0];
    if (hi->isConst() && m->isConst())
      return mkConcat(mkConst((hi->c << m->width) | m->c, hi->width + m->width), lo->k[1]);
    if (hi->op == O_EXTRACT && m->op == O_EXTRACT && hi->k[0] == m->k[0] && hi->c == m->c + m->width)
      return mkConcat(mkExtract(hi->k[0], (unsigned)m->c, hi->width + m->width), lo->k[1]);
  }
  return intern(O_CONCAT, w, 0, hi, lo, 0, 2);
}
// number of low bits known to be zero
static unsigned tz(E a, int depth = 0) {
  if (depth > 30) return 0;
  switch (a->op) {
    case O_CONST: {
      if (!a->c) return a->width;
      unsigned n = 0;
      while (!((a->c >> n) & 1)) n++;
      return n;
    }
    case O_CONCAT: {
      unsigned n = tz(a->k[1], depth + 1);
      return n == a->k[1]->width ? n + tz(a->k[0], depth + 1) : n;
    }
    case O_ADD: return std::min(tz(a->k[0], depth + 1), tz(a->k[1], depth + 1));
    case O_MUL: return std::min<unsigned>(a->width, tz(a->k[0], depth + 1) + tz(a->k[1], depth + 1));
    case O_SHL: return a->k[1]->isConst() && a->k[1]->c < a->width ? std::min<unsigned>(a->width, tz(a->k[0], depth + 1) + (unsigned)a->k[1]->c) : 0;
    case O_ITE: return std::min(tz(a->k[1], depth + 1), tz(a->k[2], depth + 1));
    default: return 0;
  }
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (lo + w > a->width) { fprintf(stderr, "expr: bad extract\n"); abort(); }
  switch (a->op) {
    case O_CONST: return mkConst(a->c >> lo, w);
    case O_EXTRACT: return mkExtract(a->k[0], lo + (unsigned)a->c, w);
    case O_CONCAT: {
      unsigned lw = a->k[1]->width;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case O_SEXT: {
      unsigned iw = a->k[0]->width;
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      if (lo >= iw) return mkSExt(mkExtract(a->k[0], iw - 1, 1), w);
      return mkSExt(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case O_ITE:
      if (a->k[1]->isConst() || a->k[2]->isConst())
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      break;
    case O_AND: return mkAnd(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case O_OR: return mkOr(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case O_XOR: return mkXor(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case O_ADD:
      if (lo == 0) return mkAdd(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      if (a->k[1]->isConst()) {  // low bits that cannot carry
        u128 low = a->k[1]->c & (((u128)1 << lo) - 1);
        if (low && tz(a->k[0]) >= lo) return mkExtract(mkAdd(a->k[0], mkConst(a->k[1]->c - low, a->width)), lo, w);
      }
      break;
    case O_MUL:
      if (lo == 0) return mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    default: break;
  }
  return intern(O_EXTRACT, w, lo, a, 0, 0, 1);
}
E mkZExt(E a, unsigned w) {
  if (a->width == w) return a;
  return mkConcat(mkConst(0, w - a->width), a);
}
E mkSExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (a->isConst()) return mkConst((u128)sx(a->c, a->width), w);
  if (a->op == O_SEXT) return mkSExt(a->k[0], w);
  if (isZExt(a)) return mkZExt(a, w);
  return intern(O_SEXT, w, 0, a, 0, 0, 1);
}
static u32 g_stamp = 0;
u32 newModelStamp() { return ++g_stamp; }
u128 evalExpr(E e0, const Model& m) {
  if (e0->op == O_CONST) return e0->c;
  if (e0->evStamp == m.stamp) return e0->evVal;
  // iterative post-order
  static std::vector<E> st;
  size_t base = st.size();
  st.push_back(e0);
  while (st.size() > base) {
    E e = st.back();
    if (e->op == O_CONST || e->evStamp == m.stamp) { st.pop_back(); continue; }
    if (e->op == O_VAR) {
      size_t i = (size_t)e->c;
      e->evVal = i < m.v.size() ? m.v[i] & maskw(e->width) : 0;
      e->evStamp = m.stamp;
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (unsigned i = 0; i < e->nk; i++)
      if (e->k[i]->op != O_CONST && e->k[i]->evStamp != m.stamp) { st.push_back(e->k[i]); ready = false; }
    if (!ready) continue;
    auto val = [&](int i) { return e->k[i]->op == O_CONST ? e->k[i]->c : e->k[i]->evVal; };
    u128 r;
    switch (e->op) {
      case O_ITE: r = val(0) ? val(1) : val(2); break;
      case O_CONCAT: r = (val(0) << e->k[1]->width) | val(1); break;
      case O_EXTRACT: r = (val(0) >> (unsigned)e->c) & maskw(e->width); break;
      case O_SEXT: r = (u128)sx(val(0), e->k[0]->width) & maskw(e->width); break;
      default: r = evalOp(e->op, e->width, val(0), val(1), e->k[0]->width);
    }
    e->evVal = r;
    e->evStamp = m.stamp;
    st.pop_back();
  }
  return e0->evVal;
}
std::string toStr(E e, int d) {
  static const char* n[] = {"const", "var", "+", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s",
                            "<u", "<s", "==", "ite", "++", "ext", "sext", "agg"};
  char buf[64];
  if (e->op == O_CONST) {
    snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->c, e->width);
    return buf;
  }
  if (e->op == O_VAR) return varName(e);
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == O_EXTRACT) { snprintf(buf, sizeof buf, "[%u+%u]", (unsigned)e->c, e->width); s += buf; }
  if (e->op == O_AGG)
    for (unsigned i = 0; i < e->nk; i++) s += " " + toStr(e->ak[i], d - 1);
  else
    for (unsigned i = 0; i < e->nk; i++) s += " " + toStr(e->k[i], d - 1);
  return s + ")";
}
