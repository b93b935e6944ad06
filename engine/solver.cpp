#include "solver.hpp"
#include <z3.h>
#include <sys/stat.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <unordered_map>

SolverStats g_ss;
unsigned g_queryTimeoutMs = 60000;
std::string g_dumpDir;
u64 g_dumpEvery = 50, g_dumpMax = 20;

static Z3_context ctx;
static Z3_solver slv;
static std::vector<E> asserted;

static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  exit(3);
}
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  slv = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_queryTimeoutMs);
  Z3_solver_set_params(ctx, slv, p);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast toBV(E e);
static Z3_ast toBool(E e);
static Z3_ast mkNum(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(ctx, w);
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, s);
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
  Z3_inc_ref(ctx, hi);
  Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
  Z3_inc_ref(ctx, lo);
  return Z3_mk_concat(ctx, hi, lo);
}
// translate kids first, iteratively, to bound recursion depth
static void prepare(E e) {
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->z3bv || x->z3bool) { st.pop_back(); continue; }
    bool ready = true;
    for (unsigned i = 0; i < x->nk; i++)
      if (!x->k[i]->z3bv && !x->k[i]->z3bool) { st.push_back(x->k[i]); ready = false; }
    if (!ready) continue;
    if (x->width == 1) toBool(x); else toBV(x);
    st.pop_back();
  }
}
static Z3_ast toBool(E e) {
  if (e->z3bool) return (Z3_ast)e->z3bool;
  Z3_ast r;
  switch (e->op) {
    case O_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case O_VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), Z3_mk_bool_sort(ctx)); break;
    case O_ULT: r = Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case O_SLT: r = Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case O_EQ: r = Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case O_AND: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
    case O_OR: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
    case O_XOR:
      if (e->k[1]->isConst()) r = Z3_mk_not(ctx, toBool(e->k[0]));
      else r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1]));
      break;
    case O_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    case O_EXTRACT: {
      Z3_ast b = Z3_mk_extract(ctx, (unsigned)e->c, (unsigned)e->c, toBV(e->k[0]));
      Z3_inc_ref(ctx, b);
      r = Z3_mk_eq(ctx, b, keep(mkNum(1, 1)));
      break;
    }
    default: {  // arithmetic on width 1: go through BV
      Z3_ast a = toBV(e);
      r = Z3_mk_eq(ctx, a, keep(mkNum(1, 1)));
    }
  }
  e->z3bool = keep(r);
  return r;
}
static Z3_ast toBV(E e) {
  if (e->z3bv) return (Z3_ast)e->z3bv;
  Z3_ast r;
  if (e->width == 1 && !(e->op == O_ADD || e->op == O_MUL || e->op == O_UDIV || e->op == O_SDIV || e->op == O_UREM ||
                         e->op == O_SREM || e->op == O_SHL || e->op == O_LSHR || e->op == O_ASHR || e->op == O_SEXT)) {
    r = Z3_mk_ite(ctx, toBool(e), keep(mkNum(1, 1)), keep(mkNum(0, 1)));
    e->z3bv = keep(r);
    return r;
  }
  auto A = [&](int i) { return toBV(e->k[i]); };
  switch (e->op) {
    case O_CONST: r = mkNum(e->c, e->width); break;
    case O_VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), Z3_mk_bv_sort(ctx, e->width)); break;
    case O_ADD: {
      E y = e->k[1];
      if (y->op == O_MUL && y->k[1]->isConst() && y->k[1]->c == maskw(y->width)) { Z3_ast p = A(0), q = toBV(y->k[0]); r = Z3_mk_bvsub(ctx, p, q); }
      else r = Z3_mk_bvadd(ctx, A(0), A(1));
      break;
    }
    case O_MUL:
      if (e->k[1]->isConst() && e->k[1]->c == maskw(e->width)) r = Z3_mk_bvneg(ctx, A(0));
      else r = Z3_mk_bvmul(ctx, A(0), A(1));
      break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
    case O_SREM: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
    case O_AND: r = Z3_mk_bvand(ctx, A(0), A(1)); break;
    case O_OR: r = Z3_mk_bvor(ctx, A(0), A(1)); break;
    case O_XOR: r = Z3_mk_bvxor(ctx, A(0), A(1)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
    case O_LSHR: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
    case O_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), A(1), A(2)); break;
    case O_CONCAT: r = Z3_mk_concat(ctx, A(0), A(1)); break;
    case O_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->c + e->width - 1, (unsigned)e->c, A(0)); break;
    case O_SEXT: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, A(0)); break;
    default: fprintf(stderr, "toBV: bad op %d\n", e->op); abort();
  }
  e->z3bv = keep(r);
  return r;
}
static ModelP getModel(Z3_solver s) {
  Z3_model m = Z3_solver_get_model(ctx, s);
  Z3_model_inc_ref(ctx, m);
  auto mp = std::make_shared<Model>();
  mp->stamp = newModelStamp();
  mp->v.assign(numVars(), 0);
  unsigned n = Z3_model_get_num_consts(ctx, m);
  for (unsigned i = 0; i < n; i++) {
    Z3_func_decl d = Z3_model_get_const_decl(ctx, m, i);
    Z3_symbol sy = Z3_get_decl_name(ctx, d);
    if (Z3_get_symbol_kind(ctx, sy) != Z3_INT_SYMBOL) continue;
    unsigned idx = (unsigned)Z3_get_symbol_int(ctx, sy);
    if (idx >= numVars()) continue;
    Z3_ast v = Z3_model_get_const_interp(ctx, m, d);
    if (!v) continue;
    if (varByIndex(idx)->width == 1) {
      mp->v[idx] = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
    } else {
      u128 val = 0;
      const char* str = Z3_get_numeral_string(ctx, v);
      for (; *str; str++) val = val * 10 + (unsigned)(*str - '0');
      mp->v[idx] = val;
    }
  }
  Z3_model_dec_ref(ctx, m);
  return mp;
}
static bool holds(const std::vector<E>& pc, E extra, const Model& m) {
  for (E e : pc) if (!evalExpr(e, m)) return false;
  return !extra || evalExpr(extra, m);
}
static void sync(const std::vector<E>& pc) {
  size_t n = 0;
  while (n < asserted.size() && n < pc.size() && asserted[n] == pc[n]) n++;
  if (asserted.size() > n) {
    Z3_solver_pop(ctx, slv, (unsigned)(asserted.size() - n));
    asserted.resize(n);
  }
  for (; n < pc.size(); n++) {
    prepare(pc[n]);
    Z3_solver_push(ctx, slv);
    Z3_solver_assert(ctx, slv, toBool(pc[n]));
    asserted.push_back(pc[n]);
  }
}
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static Res checkOneShot(const std::vector<E>& pc, E extra, ModelP* model) {
  // fresh solver through the QF_BV tactic pipeline (bit-blast + SAT)
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_queryTimeoutMs);
  Z3_solver_set_params(ctx, s, p);
  for (E e : pc) Z3_solver_assert(ctx, s, toBool(e));
  Z3_solver_assert(ctx, s, toBool(extra));
  Z3_lbool r = Z3_solver_check(ctx, s);
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (res == R_SAT && model) *model = getModel(s);
  Z3_solver_dec_ref(ctx, s);
  Z3_params_dec_ref(ctx, p);
  return res;
}
// ---------------------------------------------------------------- order fragment
// Queries that only compare variables and constants, all in one signedness, are
// the same problem over bounded integers, where Z3 decides long chains at once.
// Anything else goes to bit vectors; every model is evaluated against the
// bit-vector query before it is used.
struct FragInfo { u8 ok, sgn, uns, opaque; };
static std::unordered_map<E, FragInfo> fragMemo;
static FragInfo fragOf(E e) {
  auto it = fragMemo.find(e);
  if (it != fragMemo.end()) return it->second;
  FragInfo f{1, 0, 0, 0};
  // terms other than variables and constants become unconstrained integers:
  // sound for unsat, and a model has to pass the evaluation below
  auto leaf = [&f](E x) {
    if (x->op != O_VAR && x->op != O_CONST) f.opaque = 1;
    return x->width > 1 && x->width <= 64;
  };
  switch (e->op) {
    case O_CONST: f.ok = e->width == 1; break;
    case O_VAR: f.ok = e->width == 1; break;
    case O_SLT: f.ok = leaf(e->k[0]) && leaf(e->k[1]); f.sgn = 1; break;
    case O_ULT: f.ok = leaf(e->k[0]) && leaf(e->k[1]); f.uns = 1; break;
    case O_EQ: f.ok = leaf(e->k[0]) && leaf(e->k[1]); break;
    case O_AND: case O_OR: case O_XOR: case O_ITE:
      if (e->width != 1) { f.ok = 0; break; }
      for (unsigned i = 0; i < e->nk; i++) {
        FragInfo g = fragOf(e->k[i]);
        f.ok &= g.ok; f.sgn |= g.sgn; f.uns |= g.uns; f.opaque |= g.opaque;
      }
      break;
    default: f.ok = 0;
  }
  fragMemo[e] = f;
  return f;
}
static ModelP intModel(Z3_solver s) {
  Z3_model m = Z3_solver_get_model(ctx, s);
  Z3_model_inc_ref(ctx, m);
  auto q = std::make_shared<Model>();
  q->stamp = newModelStamp();
  q->v.assign(numVars(), 0);
  unsigned nc = Z3_model_get_num_consts(ctx, m);
  for (unsigned i = 0; i < nc; i++) {
    Z3_func_decl d = Z3_model_get_const_decl(ctx, m, i);
    Z3_symbol sy = Z3_get_decl_name(ctx, d);
    if (Z3_get_symbol_kind(ctx, sy) != Z3_INT_SYMBOL) continue;
    unsigned idx = (unsigned)Z3_get_symbol_int(ctx, sy);
    if (idx >= numVars()) continue;
    Z3_ast v = Z3_model_get_const_interp(ctx, m, d);
    if (!v) continue;
    E x = varByIndex(idx);
    if (x->width == 1) { q->v[idx] = Z3_get_bool_value(ctx, v) == Z3_L_TRUE; continue; }
    const char* str = Z3_get_numeral_string(ctx, v);
    bool neg = *str == '-';
    if (neg) str++;
    u128 val = 0;
    for (; *str; str++) if (*str >= '0' && *str <= '9') val = val * 10 + (unsigned)(*str - '0');
    if (neg) val = -val;
    q->v[idx] = val & maskw(x->width);
  }
  Z3_model_dec_ref(ctx, m);
  return q;
}
static void setTimeout(Z3_solver s, unsigned ms, unsigned seed = 0) {
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  if (seed) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), seed);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
}
struct IntView {
  bool sgn = false;
  Z3_solver s = nullptr;
  std::vector<E> asserted;
  std::unordered_map<E, Z3_ast> term, form;
  Z3_ast intOf(E x) {
    auto it = term.find(x);
    if (it != term.end()) return it->second;
    Z3_sort is = Z3_mk_int_sort(ctx);
    Z3_ast r;
    unsigned w = x->width;
    if (x->op == O_CONST) {
      u64 v = (u64)x->c;
      if (sgn) {
        int64_t sv = (int64_t)(v << (64 - w)) >> (64 - w);
        r = Z3_mk_int64(ctx, sv, is);
      } else r = Z3_mk_unsigned_int64(ctx, v, is);
      keep(r);
    } else {
      Z3_symbol sy = x->op == O_VAR ? Z3_mk_int_symbol(ctx, (int)x->c) : Z3_mk_string_symbol(ctx, ("t" + std::to_string(x->id)).c_str());
      r = keep(Z3_mk_const(ctx, sy, is));
    }
    term[x] = r;
    return r;
  }
  Z3_ast bounds(E x) {  // as a formula, asserted with the first use
    unsigned w = x->width;
    Z3_sort is = Z3_mk_int_sort(ctx);
    Z3_ast lo, hi;
    if (sgn) {
      int64_t m = w == 64 ? INT64_MIN : -((int64_t)1 << (w - 1));
      lo = Z3_mk_int64(ctx, m, is);
      keep(lo);
      hi = Z3_mk_int64(ctx, -(m + 1), is);
    } else {
      lo = Z3_mk_int64(ctx, 0, is);
      keep(lo);
      hi = Z3_mk_unsigned_int64(ctx, (u64)maskw(w), is);
    }
    keep(hi);
    Z3_ast a[2] = {keep(Z3_mk_le(ctx, lo, intOf(x))), keep(Z3_mk_le(ctx, intOf(x), hi))};
    return keep(Z3_mk_and(ctx, 2, a));
  }
  Z3_ast formOf(E e, std::vector<E>& leaves) {
    switch (e->op) {
      case O_CONST: return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      case O_VAR: return toBool(e);
      case O_SLT: case O_ULT: case O_EQ: {
        for (int i = 0; i < 2; i++) if (e->k[i]->op != O_CONST) leaves.push_back(e->k[i]);
        Z3_ast a = intOf(e->k[0]), b = intOf(e->k[1]);
        return keep(e->op == O_EQ ? Z3_mk_eq(ctx, a, b) : Z3_mk_lt(ctx, a, b));
      }
      case O_AND: { Z3_ast a[2] = {formOf(e->k[0], leaves), formOf(e->k[1], leaves)}; return keep(Z3_mk_and(ctx, 2, a)); }
      case O_OR: { Z3_ast a[2] = {formOf(e->k[0], leaves), formOf(e->k[1], leaves)}; return keep(Z3_mk_or(ctx, 2, a)); }
      case O_XOR: { Z3_ast a = formOf(e->k[0], leaves), b = formOf(e->k[1], leaves); return keep(Z3_mk_xor(ctx, a, b)); }
      default: { Z3_ast a = formOf(e->k[0], leaves), b = formOf(e->k[1], leaves), c = formOf(e->k[2], leaves); return keep(Z3_mk_ite(ctx, a, b, c)); }
    }
  }
  Z3_ast full(E e) {  // formula and the bounds of its variables
    auto it = form.find(e);
    if (it != form.end()) return it->second;
    std::vector<E> leaves;
    std::vector<Z3_ast> parts{formOf(e, leaves)};
    for (E l : leaves) parts.push_back(bounds(l));
    Z3_ast r = keep(parts.size() == 1 ? parts[0] : Z3_mk_and(ctx, (unsigned)parts.size(), parts.data()));
    form[e] = r;
    return r;
  }
  Res check(const std::vector<E>& pc, E extra, ModelP* mp) {
    if (!s) {
      s = Z3_mk_simple_solver(ctx);
      Z3_solver_inc_ref(ctx, s);
      Z3_params p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 10000);
      Z3_solver_set_params(ctx, s, p);
    }
    size_t n = 0;
    while (n < asserted.size() && n < pc.size() && asserted[n] == pc[n]) n++;
    if (asserted.size() > n) {
      Z3_solver_pop(ctx, s, (unsigned)(asserted.size() - n));
      asserted.resize(n);
    }
    for (; n < pc.size(); n++) {
      Z3_solver_push(ctx, s);
      Z3_solver_assert(ctx, s, full(pc[n]));
      asserted.push_back(pc[n]);
    }
    Z3_solver_push(ctx, s);
    Z3_solver_assert(ctx, s, full(extra));
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_TRUE) {
      *mp = intModel(s);
    }
    Z3_solver_pop(ctx, s, 1);
    return r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  }
};
static IntView views[2];
static bool g_noInt = getenv("SYMIR_NOINT") != nullptr;
static Res checkInts(const std::vector<E>& pc, E extra, ModelP* mp) {
  if (g_noInt) return R_UNKNOWN;
  FragInfo f = fragOf(extra);
  if (!f.ok) return R_UNKNOWN;
  for (E e : pc) {
    FragInfo g = fragOf(e);
    if (!g.ok) return R_UNKNOWN;
    f.sgn |= g.sgn;
    f.uns |= g.uns;
    f.opaque |= g.opaque;
  }
  if (f.sgn && f.uns) return R_UNKNOWN;
  static int credit = 40;
  if (f.opaque && credit <= 0 && g_ss.queries % 16) return R_UNKNOWN;
  IntView& v = views[f.uns ? 1 : 0];
  v.sgn = !f.uns;
  Res r = v.check(pc, extra, mp);
  if (r == R_SAT && (!holds(pc, extra, **mp))) r = R_UNKNOWN;
  if (f.opaque) credit = r == R_UNKNOWN ? credit - 1 : credit < 40 ? credit + 3 : credit;
  return r;
}
// ---------------------------------------------------------------- linear fragment
// Sums, differences, shifts, parts and comparisons of machine words as linear
// integer arithmetic: every word is an integer in [0, 2^w), a wrapping sum is
// the exact sum minus a multiple of 2^w. Other terms become unconstrained
// integers of that range, so "unsatisfiable" stays right, and every model is
// evaluated against the bit-vector query before it is used.
struct LinView {
  Z3_solver s = nullptr;
  std::unordered_map<E, Z3_ast> term, form, bform;
  std::unordered_map<E, std::vector<Z3_ast>> defs;
  std::unordered_map<E, std::vector<E>> uses;  // words whose definitions a node needs
  Z3_sort is() { static Z3_sort x = Z3_mk_int_sort(ctx); return x; }
  Z3_ast num(u128 v, bool neg = false) {
    char b[48];
    int n = 47;
    b[n] = 0;
    if (!v) b[--n] = '0';
    for (; v; v /= 10) b[--n] = (char)('0' + (int)(v % 10));
    if (neg) b[--n] = '-';
    return keep(Z3_mk_numeral(ctx, b + n, is()));
  }
  Z3_ast fresh(E x, const char* t) { return keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (std::string("L") + t + std::to_string(x->id)).c_str()), is())); }
  Z3_ast add(const std::vector<Z3_ast>& v) { return v.size() == 1 ? v[0] : keep(Z3_mk_add(ctx, (unsigned)v.size(), v.data())); }
  Z3_ast mul(Z3_ast k, Z3_ast x) { Z3_ast a[2] = {k, x}; return keep(Z3_mk_mul(ctx, 2, a)); }
  void range(E x, Z3_ast t, u128 lim) {
    defs[x].push_back(keep(Z3_mk_le(ctx, num(0), t)));
    defs[x].push_back(keep(Z3_mk_lt(ctx, t, num(lim))));
  }
  bool sum(E e, u128 f, u128 m, std::vector<std::pair<E, u128>>& out, u128& k, int depth = 0) {
    if (e->op == O_CONST) { k = (k + f * e->c) & m; return true; }
    if (depth < 40) {
      if (e->op == O_ADD) return sum(e->k[0], f, m, out, k, depth + 1) && sum(e->k[1], f, m, out, k, depth + 1);
      if (e->op == O_MUL && e->k[1]->isConst()) return sum(e->k[0], f * e->k[1]->c & m, m, out, k, depth + 1);
      if (e->op == O_SHL && e->k[1]->isConst() && e->k[1]->c < e->width) return sum(e->k[0], (f << (unsigned)e->k[1]->c) & m, m, out, k, depth + 1);
    }
    for (auto& o : out) if (o.first == e) { o.second = (o.second + f) & m; return true; }
    out.push_back({e, f & m});
    return true;
  }
  Z3_ast I(E x) {
    auto it = term.find(x);
    if (it != term.end()) return it->second;
    unsigned w = x->width;
    u128 lim = (u128)1 << w;
    Z3_ast r = nullptr;
    std::vector<E>& use = uses[x];
    switch (w == 1 ? 255 : x->op) {
      case O_CONST: r = num(x->c); break;
      case O_VAR:
        r = keep(Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)x->c), is()));
        range(x, r, lim);
        break;
      case O_ADD: case O_MUL: case O_SHL: {
        std::vector<std::pair<E, u128>> t;
        u128 k = 0, m = lim - 1;
        sum(x, 1, m, t, k);
        if (t.size() == 1 && t[0].first == x) break;
        std::vector<Z3_ast> p;
        std::vector<E> us;
        for (auto& [e, f] : t) {
          if (!f) continue;
          us.push_back(e);
          bool neg = f >> (w - 1) & 1;
          p.push_back(f == 1 ? I(e) : mul(num(neg ? lim - f : f, neg), I(e)));
        }
        bool neg = k >> (w - 1) & 1;
        if (k) p.push_back(num(neg ? lim - k : k, neg));
        r = fresh(x, "s");
        range(x, r, lim);
        p.push_back(mul(num(lim, true), fresh(x, "q")));
        defs[x].push_back(keep(Z3_mk_eq(ctx, r, add(p))));
        uses[x] = us;
        term[x] = r;
        return r;
      }
      case O_CONCAT: {
        use = {x->k[0], x->k[1]};
        Z3_ast h = mul(num((u128)1 << x->k[1]->width), I(x->k[0]));
        r = add({h, I(x->k[1])});
        uses[x] = {x->k[0], x->k[1]};
        break;
      }
      case O_SEXT: {
        E y = x->k[0];
        Z3_ast v = I(y);
        r = keep(Z3_mk_ite(ctx, keep(Z3_mk_lt(ctx, v, num((u128)1 << (y->width - 1)))), v, add({v, num(lim - ((u128)1 << y->width))})));
        uses[x] = {y};
        break;
      }
      case O_ITE: {
        std::vector<E> us;
        Z3_ast c = B(x->k[0], us);
        r = keep(Z3_mk_ite(ctx, c, I(x->k[1]), I(x->k[2])));
        us.push_back(x->k[1]);
        us.push_back(x->k[2]);
        uses[x] = us;
        break;
      }
      case O_EXTRACT: {
        E y = x->k[0];
        unsigned lo = (unsigned)x->c, hi = y->width - lo - w;
        r = fresh(x, "e");
        range(x, r, lim);
        std::vector<Z3_ast> p{lo ? mul(num((u128)1 << lo), r) : r};
        if (lo) { Z3_ast l = fresh(x, "l"); range(x, l, (u128)1 << lo); p.push_back(l); }
        if (hi) { Z3_ast h = fresh(x, "h"); range(x, h, (u128)1 << hi); p.push_back(mul(num((u128)1 << (lo + w)), h)); }
        Z3_ast v = I(y);
        defs[x].push_back(keep(Z3_mk_eq(ctx, v, add(p))));
        uses[x] = {y};
        break;
      }
      case O_UDIV: case O_UREM: {
        E y = x->k[1];
        if (!y->isConst() || y->c == 0) break;
        Z3_ast q = fresh(x, "d"), m = fresh(x, "m");
        range(x, q, lim);
        range(x, m, y->c);
        Z3_ast v = I(x->k[0]);
        defs[x].push_back(keep(Z3_mk_eq(ctx, v, add({mul(num(y->c), q), m}))));
        r = x->op == O_UDIV ? q : m;
        uses[x] = {x->k[0]};
        break;
      }
      case O_LSHR: {
        E y = x->k[1];
        if (!y->isConst() || y->c >= w || y->c == 0) break;
        Z3_ast l = fresh(x, "l");
        r = fresh(x, "r");
        range(x, r, lim);
        range(x, l, (u128)1 << (unsigned)y->c);
        Z3_ast v = I(x->k[0]);
        defs[x].push_back(keep(Z3_mk_eq(ctx, v, add({mul(num((u128)1 << (unsigned)y->c), r), l}))));
        uses[x] = {x->k[0]};
        break;
      }
      case 255:
        if (x->op == O_EXTRACT) {
          E y = x->k[0];
          unsigned lo = (unsigned)x->c, hi = y->width - lo - 1;
          r = fresh(x, "e");
          range(x, r, 2);
          std::vector<Z3_ast> p{lo ? mul(num((u128)1 << lo), r) : r};
          if (lo) { Z3_ast l = fresh(x, "l"); range(x, l, (u128)1 << lo); p.push_back(l); }
          if (hi) { Z3_ast h = fresh(x, "h"); range(x, h, (u128)1 << hi); p.push_back(mul(num((u128)1 << (lo + 1)), h)); }
          Z3_ast v = I(y);
          defs[x].push_back(keep(Z3_mk_eq(ctx, v, add(p))));
          uses[x] = {y};
        } else {
          std::vector<E> us;
          r = keep(Z3_mk_ite(ctx, B(x, us), num(1), num(0)));
          uses[x] = us;
        }
        break;
      default: break;
    }
    if (!r) {
      r = fresh(x, "o");
      range(x, r, lim);
    }
    term[x] = r;
    return r;
  }
  Z3_ast sgnOf(E x, std::vector<E>& us) {
    us.push_back(x);
    Z3_ast v = I(x);
    return keep(Z3_mk_ite(ctx, keep(Z3_mk_lt(ctx, v, num((u128)1 << (x->width - 1)))), v, add({v, num((u128)1 << x->width, true)})));
  }
  // boolean structure; us collects the words used
  Z3_ast B(E e, std::vector<E>& us) {
    std::vector<E> mine;
    Z3_ast r = nullptr;
    auto it = bform.find(e);
    if (it != bform.end()) {
      for (E x : uses[e]) us.push_back(x);
      return it->second;
    }
    switch (e->op) {
      case O_CONST: r = keep(e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)); break;
      case O_VAR: r = toBool(e); break;
      case O_AND: { Z3_ast a[2] = {B(e->k[0], mine), B(e->k[1], mine)}; r = keep(Z3_mk_and(ctx, 2, a)); break; }
      case O_OR: { Z3_ast a[2] = {B(e->k[0], mine), B(e->k[1], mine)}; r = keep(Z3_mk_or(ctx, 2, a)); break; }
      case O_XOR: { Z3_ast a = B(e->k[0], mine), b = B(e->k[1], mine); r = keep(Z3_mk_xor(ctx, a, b)); break; }
      case O_ITE: { Z3_ast a = B(e->k[0], mine), b = B(e->k[1], mine), c = B(e->k[2], mine); r = keep(Z3_mk_ite(ctx, a, b, c)); break; }
      case O_EQ: case O_ULT: {
        if (e->k[0]->width > 64) break;
        mine.push_back(e->k[0]);
        mine.push_back(e->k[1]);
        Z3_ast a = I(e->k[0]), b = I(e->k[1]);
        r = keep(e->op == O_EQ ? Z3_mk_eq(ctx, a, b) : Z3_mk_lt(ctx, a, b));
        break;
      }
      case O_SLT: {
        if (e->k[0]->width > 64) break;
        Z3_ast a = sgnOf(e->k[0], mine), b = sgnOf(e->k[1], mine);
        r = keep(Z3_mk_lt(ctx, a, b));
        break;
      }
      case O_EXTRACT:
        if (e->k[0]->width > 64) break;
        mine.push_back(e);
        r = keep(Z3_mk_eq(ctx, I(e), num(1)));
        break;
      default: break;
    }
    if (!r) r = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("Lb" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(ctx)));
    bform[e] = r;
    if (!(e->op == O_EXTRACT)) uses[e] = mine;
    else bform.erase(e);
    for (E x : mine) us.push_back(x);
    return r;
  }
  Z3_ast full(E e) {
    auto it = form.find(e);
    if (it != form.end()) return it->second;
    std::vector<E> us;
    std::vector<Z3_ast> parts{B(e, us)};
    std::set<E> seen;
    while (us.size()) {
      E x = us.back();
      us.pop_back();
      if (!seen.insert(x).second) continue;
      auto d = defs.find(x);
      if (d != defs.end()) for (Z3_ast a : d->second) parts.push_back(a);
      for (E y : uses[x]) us.push_back(y);
    }
    Z3_ast r = keep(parts.size() == 1 ? parts[0] : Z3_mk_and(ctx, (unsigned)parts.size(), parts.data()));
    form[e] = r;
    return r;
  }
  Res check(const std::vector<E>& pc, E extra, ModelP* mp, unsigned ms, unsigned seed) {
    // a fresh solver each time: its preprocessing is worth more than reuse
    s = Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    setTimeout(s, ms, seed);
    for (E e : pc) Z3_solver_assert(ctx, s, full(e));
    Z3_solver_assert(ctx, s, full(extra));
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_TRUE) *mp = intModel(s);
    Z3_solver_dec_ref(ctx, s);
    return r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  }
};
static LinView g_lin;
static bool hasSum(E e) {
  static std::unordered_map<E, bool> memo;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool r = e->op == O_ADD && e->width > 8;
  if (e->op != O_AGG) for (unsigned i = 0; i < e->nk && !r; i++) r = hasSum(e->k[i]);
  return memo[e] = r;
}
static bool g_noLin = getenv("SYMIR_NOLIN") != nullptr;
static bool g_linOk(const std::vector<E>& pc, E extra) {
  if (hasSum(extra)) return true;
  for (E e : pc) if (hasSum(e)) return true;
  return false;
}
static Res checkLin(const std::vector<E>& pc, E extra, ModelP* mp, unsigned ms, unsigned seed = 0) {
  Res r = g_lin.check(pc, extra, mp, ms, seed);
  if (r == R_SAT && !holds(pc, extra, **mp)) r = R_UNKNOWN;
  if (r != R_UNKNOWN) g_ss.lin++;
  return r;
}
static void dumpQuery(const std::vector<E>& pc, E extra, Res res) {
  std::string f = g_dumpDir + "/q" + std::to_string(g_ss.queries) + (res == R_SAT ? ".sat" : ".unsat") + ".smt2";
  FILE* o = fopen(f.c_str(), "w");
  if (!o) return;
  sync(pc);
  prepare(extra);
  Z3_solver_push(ctx, slv);
  Z3_solver_assert(ctx, slv, toBool(extra));
  fprintf(o, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, slv));
  Z3_solver_pop(ctx, slv, 1);
  fclose(o);
  g_ss.dumped++;
}
static Res checkBV(const std::vector<E>& pc, E extra, ModelP& mp) {
  sync(pc);
  prepare(extra);
  Z3_solver_push(ctx, slv);
  Z3_solver_assert(ctx, slv, toBool(extra));
  Z3_lbool r = Z3_solver_check(ctx, slv);
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (res == R_SAT) mp = getModel(slv);
  Z3_solver_pop(ctx, slv, 1);
  return res;
}
Res solverCheck(const std::vector<E>& pc, E extra, ModelP* model) {
  if (extra->isFalse()) return R_UNSAT;
  double t0 = now();
  if (getenv("SYMIR_TRACEQ")) { fprintf(stderr, "query pc=%zu\n", pc.size()); for (E e : pc) fprintf(stderr, "  %s\n", toStr(e).substr(0, 400).c_str()); fprintf(stderr, " ?? %s\n", toStr(extra).substr(0, 900).c_str()); }
  g_ss.queries++;
  ModelP mp;
  Res res = checkInts(pc, extra, &mp);
  if (res != R_UNKNOWN) g_ss.ints++;
  else if (g_noLin || !g_linOk(pc, extra)) res = checkBV(pc, extra, mp);
  else {
    // whichever has been faster lately goes first
    static double cost[2] = {0.01, 0.05};  // bit-vectors, linear arithmetic
    static int credit = 4, turn = 0;       // spent when linear arithmetic fails where bit-vectors were slow as well
    auto note = [&](int i, double t) { cost[i] = 0.7 * cost[i] + 0.3 * t; };
    bool lin = cost[1] < cost[0] && credit > 0;
    if (++turn % 8 == 0 && credit > 0 && cost[!lin] < 10 * cost[lin]) lin = !lin;
    double t = now();
    if (lin) {
      res = checkLin(pc, extra, &mp, 3000);
      note(1, now() - t + (res == R_UNKNOWN ? 3 : 0));
      if (res == R_UNKNOWN) {
        setTimeout(slv, 1000);
        res = checkBV(pc, extra, mp);
        setTimeout(slv, g_queryTimeoutMs);
      }
      if (res == R_UNKNOWN) res = checkLin(pc, extra, &mp, 25000, 7);
    } else {
      if (credit > 0) setTimeout(slv, 300);
      res = checkBV(pc, extra, mp);
      note(0, now() - t + (res == R_UNKNOWN ? 1 : 0));
      if (credit > 0) setTimeout(slv, g_queryTimeoutMs);
      if (credit > 0 && res == R_UNKNOWN) {
        t = now();
        res = checkLin(pc, extra, &mp, 5000);
        note(1, now() - t + (res == R_UNKNOWN ? 3 : 0));
        credit = res == R_UNKNOWN ? credit - 1 : credit < 10 ? credit + 2 : credit;
      }
    }
    if (res == R_UNKNOWN) res = checkBV(pc, extra, mp);
  }
  if (!g_dumpDir.empty() && g_ss.queries % g_dumpEvery == 1 && g_ss.dumped < g_dumpMax && res != R_UNKNOWN) dumpQuery(pc, extra, res);
  if (res == R_UNKNOWN) {
    g_ss.fallback++;
    res = checkOneShot(pc, extra, &mp);
  }
  if (res == R_SAT) {
    if (!holds(pc, extra, *mp)) {  // engine and solver must agree on the meaning of every model
      fprintf(stderr, "solver model does not satisfy the query (encoding bug)\n");
      exit(3);
    }
    if (model) *model = mp;
  }
  double dt = now() - t0;
  if (dt > 0.1 && getenv("SYMIR_SLOW")) fprintf(stderr, "slow %.2f %s pc=%zu %s\n", dt, res == R_SAT ? "sat" : "unsat", pc.size(), toStr(extra).substr(0, 300).c_str());
  g_ss.time += dt;
  if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (res == R_SAT) g_ss.sat++;
  else if (res == R_UNSAT) g_ss.unsat++;
  else g_ss.unknown++;
  return res;
}

// ---------------------------------------------------------------- order DB
OrderDB::OrderDB() { memset((void*)this, 0, sizeof *this); }
static std::vector<E> g_ordNodes;
static int nodeOf(E e, bool create) {
  if (e->ordS >= 0) return e->ordS;
  if (!create || g_ordNodes.size() >= ORD_N) return -1;
  e->ordS = (int)g_ordNodes.size();
  g_ordNodes.push_back(e);
  return e->ordS;
}
static inline bool bit(const u64* r, int i) { return (r[i >> 6] >> (i & 63)) & 1; }
static inline void setb(u64* r, int i) { r[i >> 6] |= (u64)1 << (i & 63); }
static void addRel(OrderDB::Rel& R, int a, int b, bool strict) {
  if (bit(R.ne[a], b)) strict = true;
  if (strict ? bit(R.lt[a], b) : bit(R.le[a], b)) return;
  int n = (int)g_ordNodes.size();
  u64 lb[ORD_W], tb[ORD_W];
  memcpy(lb, R.le[b], sizeof lb);
  memcpy(tb, R.lt[b], sizeof tb);
  for (int x = 0; x < n; x++) {
    if (!bit(R.act, x) || !bit(R.le[x], a)) continue;
    bool st = strict || bit(R.lt[x], a);
    for (int w = 0; w < ORD_W; w++) {
      R.le[x][w] |= lb[w];
      R.lt[x][w] |= st ? lb[w] : tb[w];
    }
  }
}
static bool sameWidthConstLess(E a, E b, bool sgn) { return (sgn ? mkSlt(a, b) : mkUlt(a, b))->isTrue(); }
static void activate(OrderDB::Rel& R, int a, bool sgn) {
  if (bit(R.act, a)) return;
  setb(R.act, a);
  setb(R.le[a], a);
  E e = g_ordNodes[a];
  if (!e->isConst()) return;
  for (int j = 0; j < (int)g_ordNodes.size(); j++) {
    E f = g_ordNodes[j];
    if (j == a || !bit(R.act, j) || !f->isConst() || f->width != e->width) continue;
    if (sameWidthConstLess(e, f, sgn)) addRel(R, a, j, true);
    else addRel(R, j, a, true);
  }
}
static OrderDB* own(OrderP& p) {
  if (!p) p = std::make_shared<OrderDB>();
  else if (p.use_count() > 1) p = std::make_shared<OrderDB>(*p);
  return p.get();
}
void orderAdd(OrderP& db, E e) {
  bool neg = false;
  E x = e;
  if (E n = notOperand(e)) { x = n; neg = true; }
  if (x->op == O_AND && !neg) { orderAdd(db, x->k[0]); orderAdd(db, x->k[1]); return; }
  if (x->op != O_SLT && x->op != O_ULT && x->op != O_EQ) return;
  if (x->k[0]->isConst() && x->k[1]->isConst()) return;
  int a = nodeOf(x->k[0], true), b = nodeOf(x->k[1], true);
  if (a < 0 || b < 0) return;
  OrderDB* d = own(db);
  for (int sgn = 0; sgn < 2; sgn++) {
    if (x->op == O_SLT && !sgn) continue;
    if (x->op == O_ULT && sgn) continue;
    OrderDB::Rel& R = sgn ? d->s : d->u;
    activate(R, a, sgn);
    activate(R, b, sgn);
    if (x->op == O_EQ) {
      if (neg) {
        setb(R.ne[a], b);
        setb(R.ne[b], a);
        if (bit(R.le[a], b)) addRel(R, a, b, true);
        if (bit(R.le[b], a)) addRel(R, b, a, true);
      } else {
        addRel(R, a, b, false);
        addRel(R, b, a, false);
      }
    } else if (neg) addRel(R, b, a, false);
    else addRel(R, a, b, true);
  }
}
static int lookup(OrderP& db, E x) {
  int a = nodeOf(x->k[0], x->k[0]->isConst()), b = nodeOf(x->k[1], x->k[1]->isConst());
  if (a < 0 || b < 0) return -1;
  if (!db) return -1;
  for (int sgn = 0; sgn < 2; sgn++) {
    if (x->op == O_SLT && !sgn) continue;
    if (x->op == O_ULT && sgn) continue;
    OrderDB::Rel* R = sgn ? &db->s : &db->u;
    for (int t : {a, b})
      if (!bit(R->act, t)) {
        if (!g_ordNodes[t]->isConst()) goto next;
        OrderDB* d = own(db);
        R = sgn ? &d->s : &d->u;
        activate(*R, t, sgn);
      }
    if (x->op == O_EQ) {
      if (bit(R->lt[a], b) || bit(R->lt[b], a) || bit(R->ne[a], b)) return 0;
      if (bit(R->le[a], b) && bit(R->le[b], a)) return 1;
    } else {
      if (bit(R->lt[a], b)) return 1;
      if (bit(R->le[b], a)) return 0;
    }
  next:;
  }
  return -1;
}
int orderImplied(OrderP& db, E e) {
  if (e->isConst()) return (int)e->cv();
  switch (e->op) {
    case O_SLT: case O_ULT: case O_EQ:
      if (e->k[0]->width > 1) return lookup(db, e);
      return -1;
    case O_XOR: {
      if (e->width != 1) return -1;
      int r = orderImplied(db, e->k[0]);
      if (r < 0) return -1;
      int s = orderImplied(db, e->k[1]);
      return s < 0 ? -1 : r ^ s;
    }
    case O_AND: {
      if (e->width != 1) return -1;
      int r = orderImplied(db, e->k[0]);
      if (r == 0) return 0;
      int s = orderImplied(db, e->k[1]);
      if (s == 0) return 0;
      return r == 1 && s == 1 ? 1 : -1;
    }
    case O_ITE: {
      if (e->width != 1) return -1;
      int c = orderImplied(db, e->k[0]);
      if (c == 1) return orderImplied(db, e->k[1]);
      if (c == 0) return orderImplied(db, e->k[2]);
      return -1;
    }
    default: return -1;
  }
}

u64 g_ordVersion = 0;
static E rebuild(E e, E a, E b, E c) {
  switch (e->op) {
    case O_ADD: return mkAdd(a, b);
    case O_MUL: return mkMul(a, b);
    case O_UDIV: return mkUDiv(a, b);
    case O_SDIV: return mkSDiv(a, b);
    case O_UREM: return mkURem(a, b);
    case O_SREM: return mkSRem(a, b);
    case O_AND: return mkAnd(a, b);
    case O_OR: return mkOr(a, b);
    case O_XOR: return mkXor(a, b);
    case O_SHL: return mkShl(a, b);
    case O_LSHR: return mkLShr(a, b);
    case O_ASHR: return mkAShr(a, b);
    case O_ULT: return mkUlt(a, b);
    case O_SLT: return mkSlt(a, b);
    case O_EQ: return mkEq(a, b);
    case O_ITE: return mkIte(a, b, c);
    case O_CONCAT: return mkConcat(a, b);
    case O_EXTRACT: return mkExtract(a, (unsigned)e->c, e->width);
    case O_SEXT: return mkSExt(a, e->width);
    default: return e;
  }
}
E orderRewrite(OrderP& db, E root) {
  static u64 ver = ~0ull;
  static std::unordered_map<E, E> memo;
  if (ver != g_ordVersion) { memo.clear(); ver = g_ordVersion; }
  if (!db) return root;
  std::vector<E> st{root};
  while (!st.empty()) {
    E x = st.back();
    if (memo.count(x)) { st.pop_back(); continue; }
    if (x->nk == 0 || x->op == O_AGG) { memo[x] = x; st.pop_back(); continue; }
    if (x->op == O_SLT || x->op == O_ULT || x->op == O_EQ) {
      int r = orderImplied(db, x);
      if (r >= 0) { memo[x] = mkBool(r); st.pop_back(); continue; }
    }
    bool ready = true;
    // condition first: the branch of a decided ite that is not taken is not visited
    if (x->op == O_ITE) {
      auto it = memo.find(x->k[0]);
      if (it == memo.end()) { st.push_back(x->k[0]); continue; }
      if (it->second->isConst()) {
        E y = x->k[it->second->c ? 1 : 2];
        auto j = memo.find(y);
        if (j == memo.end()) { st.push_back(y); continue; }
        memo[x] = j->second;
        st.pop_back();
        continue;
      }
    }
    for (unsigned i = 0; i < x->nk; i++)
      if (!memo.count(x->k[i])) { st.push_back(x->k[i]); ready = false; }
    if (!ready) continue;
    E k[3] = {nullptr, nullptr, nullptr};
    bool ch = false;
    for (unsigned i = 0; i < x->nk; i++) { k[i] = memo[x->k[i]]; ch |= k[i] != x->k[i]; }
    E y = ch ? rebuild(x, k[0], k[1], k[2]) : x;
    if (ch && (y->op == O_SLT || y->op == O_ULT || y->op == O_EQ)) {
      int r = orderImplied(db, y);
      if (r >= 0) y = mkBool(r);
    }
    memo[x] = y;
    st.pop_back();
  }
  return memo[root];
}
