// member functions of Exec: instruction semantics
E val(Frame& f, int o) { return o >= 0 ? f.regs[o] : f.f->consts[-o - 1]; }

static unsigned lanes(E e) { return e->op == O_AGG ? e->nk : 0; }
template <class Fn> E map1(E a, Fn fn) {
  if (!lanes(a)) return fn(a);
  std::vector<E> v;
  for (unsigned i = 0; i < a->nk; i++) v.push_back(map1(a->ak[i], fn));
  return mkAgg(v);
}
template <class Fn> E map2(E a, E b, Fn fn) {
  if (!lanes(a)) return fn(a, b);
  std::vector<E> v;
  for (unsigned i = 0; i < a->nk; i++) v.push_back(fn(a->ak[i], b->ak[i]));
  return mkAgg(v);
}
// ---- floating point comparisons on the bit patterns
static E fNan(E a) {
  unsigned w = a->width, m = w == 32 ? 23 : 52;
  E mag = mkZExt(mkExtract(a, 0, w - 1), w);
  u128 inf = (maskw(w - 1 - m)) << m;
  return mkUlt(mkConst(inf, w), mag);
}
static E fOrd(E a) {  // signed-comparable image, -0 == +0
  unsigned w = a->width;
  return mkIte(mkSlt(a, mkConst(0, w)), mkSub(mkConst((u128)1 << (w - 1), w), a), a);
}
E fcmp(unsigned p, E a, E b) {
  if (a->width != 32 && a->width != 64) fatal("float width");
  E un = mkOr(fNan(a), fNan(b));
  E eq = mkEq(fOrd(a), fOrd(b)), lt = mkSlt(fOrd(a), fOrd(b)), gt = mkSlt(fOrd(b), fOrd(a));
  E o = mkNot(un);
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkBool(false);
    case CmpInst::FCMP_OEQ: return mkAnd(o, eq);
    case CmpInst::FCMP_OGT: return mkAnd(o, gt);
    case CmpInst::FCMP_OGE: return mkAnd(o, mkNot(lt));
    case CmpInst::FCMP_OLT: return mkAnd(o, lt);
    case CmpInst::FCMP_OLE: return mkAnd(o, mkNot(gt));
    case CmpInst::FCMP_ONE: return mkAnd(o, mkNot(eq));
    case CmpInst::FCMP_ORD: return o;
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return mkOr(un, eq);
    case CmpInst::FCMP_UGT: return mkOr(un, gt);
    case CmpInst::FCMP_UGE: return mkOr(un, mkNot(lt));
    case CmpInst::FCMP_ULT: return mkOr(un, lt);
    case CmpInst::FCMP_ULE: return mkOr(un, mkNot(gt));
    case CmpInst::FCMP_UNE: return mkOr(un, mkNot(eq));
    default: return mkBool(true);
  }
}
static E icmp(unsigned p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_ULE: return mkNot(mkUlt(b, a));
    case CmpInst::ICMP_UGE: return mkNot(mkUlt(a, b));
    case CmpInst::ICMP_SLT: return mkSlt(a, b);
    case CmpInst::ICMP_SGT: return mkSlt(b, a);
    case CmpInst::ICMP_SLE: return mkNot(mkSlt(b, a));
    default: return mkNot(mkSlt(a, b));
  }
}
// out-of-range shift amounts give an arbitrary value (poison)
E shiftVal(unsigned op, E a, E b) {
  E r = op == Instruction::Shl ? mkShl(a, b) : op == Instruction::LShr ? mkLShr(a, b) : mkAShr(a, b);
  if (b->isConst()) return b->c < a->width ? r : freshUndef(a->width);
  E inr = mkUlt(b, mkConst(a->width, b->width));
  if (a->width > 1 && implied(*S, inr) != 1 && solverCheck(S->pc, mkNot(inr), nullptr) != R_UNSAT)
    return mkIte(inr, r, freshUndef(a->width));
  return r;
}
E binop(unsigned op, E a, E b) {
  switch (op) {
    case Instruction::Add: return mkAdd(a, b);
    case Instruction::Sub: return mkSub(a, b);
    case Instruction::Mul: return mkMul(a, b);
    case Instruction::And: return mkAnd(a, b);
    case Instruction::Or: return mkOr(a, b);
    case Instruction::Xor: return mkXor(a, b);
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return shiftVal(op, a, b);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      if (decide(mkEq(b, mkConst(0, b->width)))) err("ub", "division by zero");
      if (op == Instruction::UDiv) return mkUDiv(a, b);
      if (op == Instruction::SDiv) return mkSDiv(a, b);
      if (op == Instruction::URem) return mkURem(a, b);
      return mkSRem(a, b);
  }
  fatal("binary operator " + std::string(Instruction::getOpcodeName(op)));
}
E bitcastTo(E a, const TD* from, const TD* to) {
  std::vector<E> in;
  if (from->k == TD::VEC) for (unsigned i = 0; i < a->nk; i++) in.push_back(a->ak[i]);
  else in.push_back(a);
  if (to->k == TD::INT) {
    E r = in[0];
    for (size_t i = 1; i < in.size(); i++) r = mkConcat(in[i], r);
    return r;
  }
  unsigned lw = to->f[0].second->width;
  std::vector<E> out;
  size_t i = 0;
  unsigned used = 0;
  for (unsigned l = 0; l < to->n; l++) {
    E r = nullptr;
    unsigned need = lw;
    while (need) {
      unsigned avail = in[i]->width - used, take = std::min(avail, need);
      E p = mkExtract(in[i], used, take);
      r = r ? mkConcat(p, r) : p;
      used += take;
      need -= take;
      if (used == in[i]->width) { i++; used = 0; }
    }
    out.push_back(r);
  }
  return mkAgg(out);
}
E insertAgg(E a, const unsigned* idx, unsigned n, E v) {
  if (!n) return v;
  std::vector<E> k(a->ak, a->ak + a->nk);
  k[*idx] = insertAgg(k[*idx], idx + 1, n - 1, v);
  return mkAgg(k);
}
// ---------------------------------------------------------------- control
void takeEdge(Frame& f, int e) {
  Edge& ed = f.f->edges[e];
  if (ed.moves.size() == 1) f.regs[ed.moves[0].first] = val(f, ed.moves[0].second);
  else if (!ed.moves.empty()) {
    static std::vector<E> tmp;
    tmp.clear();
    for (auto& m : ed.moves) tmp.push_back(val(f, m.second));
    for (size_t i = 0; i < ed.moves.size(); i++) f.regs[ed.moves[i].first] = tmp[i];
  }
  f.pc = ed.target;
}
void pushFrame(State& s, DFunc* d, const std::vector<E>& args, int retDst, u8 special = 0) {
  if (s.stack.size() > 400) err("stack", "call depth exceeds 400 (unbounded recursion)");
  d->calls++;
  s.stack.emplace_back();
  Frame& f = s.stack.back();
  f.f = d;
  f.regs.assign((size_t)d->nregs, nullptr);
  for (size_t i = 0; i < args.size() && i < d->F->arg_size(); i++) f.regs[i] = args[i];
  f.retDst = retDst;
  f.special = special;
}
void popAllocas(State& s, Frame& f) {
  for (u64 a : f.allocas) {
    int i = findObj(s, a);
    if (i >= 0) s.mem.erase(s.mem.begin() + i);
  }
}
void setRes(State& s, DInst& d, E v) {
  if (d.dst >= 0) s.stack.back().regs[d.dst] = v;
}
void advanceCall(State& s) {
  Frame& f = s.stack.back();
  DInst& d = f.f->ins[f.pc];
  if (d.op == Instruction::Invoke) takeEdge(f, d.edges[0]);
  else f.pc++;
}
// ---------------------------------------------------------------- exceptions
bool tiDerived(u64 t, u64 base) {
  if (t == base) return true;
  std::string a = tiName.count(t) ? tiName[t] : "", b = tiName.count(base) ? tiName[base] : "";
  if (!a.empty() && a == b) return true;
  static const std::map<std::string, std::string> parent = {
      {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
      {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
      {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
      {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
      {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
  auto p = parent.find(a);
  if (p != parent.end()) {
    for (std::string x = p->second;;) {
      if (x == b) return true;
      auto q = parent.find(x);
      if (q == parent.end()) return false;
      x = q->second;
    }
  }
  auto g = gvAt.find(t);
  if (g != gvAt.end() && g->second->hasInitializer())
    if (auto* CS = dyn_cast<ConstantStruct>(g->second->getInitializer()))
      for (unsigned i = 2; i < CS->getNumOperands(); i++)
        if (CS->getOperand(i)->getType()->isPointerTy())
          if (auto* P = dyn_cast<GlobalVariable>(CS->getOperand(i)->stripPointerCasts()))
            if (tiDerived(addrOf(P), base)) return true;
  return false;
}
// what the landing pad of this invoke does with type t: -1 not interested,
// 0 cleanup, otherwise the selector value
long lpSelect(const InvokeInst* II, u64 t) {
  const LandingPadInst* L = II->getUnwindDest()->getLandingPadInst();
  for (unsigned i = 0; i < L->getNumClauses(); i++) {
    if (L->isCatch(i)) {
      E c = constVal(L->getClause(i));
      if (c->cv() == 0) return 0x7fffffff;
      if (tiDerived(t, c->cv())) return (long)(c->cv() & 0x7fffffff);
    } else
      fatal("exception filter");
  }
  return L->isCleanup() ? 0 : -1;
}
u64 lpObj = 0;
void unwind(State& s, const Exc& ex, bool popTop) {
  // phase 1
  size_t top = s.stack.size();
  if (popTop) top--;
  bool handled = false;
  for (size_t i = top; i-- > 0;) {
    Frame& f = s.stack[i];
    DInst& d = f.f->ins[f.pc];
    if (d.op == Instruction::Invoke && lpSelect(cast<InvokeInst>(d.I), ex.type) > 0) { handled = true; break; }
    if (f.f->F->doesNotThrow()) break;
  }
  if (!handled) err("exception", "uncaught exception " + (tiName.count(ex.type) ? demangle(tiName[ex.type]).substr(0, 80) : std::string("?")) + " (std::terminate)");
  if (popTop) { popAllocas(s, s.stack.back()); s.stack.pop_back(); }
  while (!s.stack.empty()) {
    Frame& f = s.stack.back();
    DInst& d = f.f->ins[f.pc];
    if (d.op == Instruction::Invoke) {
      long sel = lpSelect(cast<InvokeInst>(d.I), ex.type);
      if (sel >= 0) {
        takeEdge(f, d.edges[1]);
        DInst& lp = f.f->ins[f.pc];
        if (lp.op != Instruction::LandingPad) fatal("landing pad");
        if (lp.dst >= 0) f.regs[lp.dst] = mkAgg({mkConst(ex.obj, 64), mkConst((u64)sel, 32)});
        f.pc++;
        return;
      }
    }
    popAllocas(s, f);
    s.stack.pop_back();
  }
  fatal("unwind");
}
void throwStd(State& s, const std::string& ti) {
  u64 o = allocObj(s, 64, 16, K_EXC);
  Exc e{o, typeinfoAddr(ti), 0};
  s.inflight.push_back(e);
  unwind(s, e, false);
}
// ---------------------------------------------------------------- calls
std::string cstr(u64 a) {
  std::string r;
  for (int i = 0; i < 400; i++) {
    int oi = findObj(*S, a + i);
    if (oi < 0) break;
    u8 v = 0;
    E e;
    Object* o = S->mem[oi].o;
    if (a + i >= o->base + o->size) break;
    if (o->getByte(a + i - o->base, v, e) != 0 || !v) break;
    r.push_back((char)v);
  }
  return r;
}
const char* internStr(const std::string& s) {
  static std::set<std::string> pool;
  return pool.insert(s).first->c_str();
}
E newSym(unsigned w, unsigned kind) {
  State& s = *S;
  E v = mkVar("v" + std::to_string(s.symCount++) + "_" + std::to_string(w), w);
  s.inputs.push_back(v);
  s.inputKinds.push_back((u8)kind);
  return v;
}
enum { EXT_DONE, EXT_TRANSFER, EXT_UNKNOWN };  // TRANSFER: control already moved
int callExternal(State& s, DInst& d, const std::string& n, std::vector<E>& a) {
  auto C = [&](int i) { return concretize(a[i]); };
  auto has = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  // ---- harness interface
  if (has("symh_")) {
    if (n == "symh_sym") { u64 w = C(0); setRes(s, d, mkZExt(newSym((unsigned)w, (unsigned)w), 64)); return EXT_DONE; }
    if (n == "symh_choice") {
      u64 k = C(0);
      if (k == 0) err("harness", "choice of 0");
      // fork into k alternatives without the solver
      for (u64 i = 1; i < k; i++) {
        State* o = new State(s);
        o->id = ++nextId;
        o->inputs.push_back(mkConst(i, 64));
        o->inputKinds.push_back(0);
        if (d.dst >= 0) o->stack.back().regs[d.dst] = mkConst(i, 64);
        advanceCall(*o);
        work.push_back(o);
      }
      s.inputs.push_back(mkConst(0, 64));
      s.inputKinds.push_back(0);
      setRes(s, d, mkConst(0, 64));
      return EXT_DONE;
    }
    if (n == "symh_assume") { assume(mkNot(mkEq(a[0], mkConst(0, a[0]->width)))); return EXT_DONE; }
    if (n == "symh_assert") {
      E c = mkNot(mkEq(a[0], mkConst(0, a[0]->width)));
      oblige(c, internStr(cstr(C(1))));
      return EXT_DONE;
    }
    if (n == "symh_cover") { covers[cstr(C(0))]++; return EXT_DONE; }
    if (n == "symh_observe") { s.observed.push_back(a[0]); return EXT_DONE; }
    if (n == "symh_param") {
      std::string k = cstr(C(0));
      auto it = optParams.find(k);
      if (it == optParams.end()) { setRes(s, d, a[1]); return EXT_DONE; }
      setRes(s, d, mkConst(it->second, 64));
      return EXT_DONE;
    }
    if (n == "symh_concrete") { setRes(s, d, mkConst(C(0), 64)); return EXT_DONE; }
    if (n == "symh_is_symbolic") { setRes(s, d, mkConst(1, 32)); return EXT_DONE; }
    if (n == "symh_stop") { flushObligations(); completed++; throw PathEnd(); }
    if (n == "symh_new_fail") { long left = s.newFail; s.newFail = (long)C(0); setRes(s, d, mkConst((u64)left, 64)); return EXT_DONE; }
    if (n == "symh_heap_live") {
      u64 k = 0;
      for (auto& m : s.mem) if (m.o->kind == K_HEAP) k++;
      setRes(s, d, mkConst(k, 64));
      return EXT_DONE;
    }
    if (n == "symh_poison") {  // region becomes undefined memory
      u64 p = C(0), len = C(1);
      int i = access(s, p, len, true, 1);
      if (i >= 0) { Object* o = wobj(s, i); for (u64 k = 0; k < len; k++) o->setUndef(p - o->base + k); }
      return EXT_DONE;
    }
    if (n == "symh_region") {  // separate memory region at a given alignment; zero-filled
      u64 len = C(0), al = C(1);
      u64 p = allocObj(s, len, al, K_GLOBAL);
      s.mem.back().o->zero = true;
      s.nextAddr += 0x10000;
      setRes(s, d, mkConst(p, 64));
      return EXT_DONE;
    }
    if (n == "symh_far") { s.farLo = C(0); s.farHi = C(1); return EXT_DONE; }
    if (n == "symh_region_free") {
      u64 p = C(0);
      int i = findObj(s, p);
      if (i < 0 || s.mem[i].o->base != p || s.mem[i].o->kind != K_GLOBAL) err("memory", "unmapping something that is not a mapped region");
      s.freed.push_back({p, s.mem[i].o->size});
      s.mem.erase(s.mem.begin() + i);
      return EXT_DONE;
    }
    if (n == "symh_debug") { fprintf(stderr, "debug: %s\n", toStr(a[0]).c_str()); return EXT_DONE; }
    return EXT_UNKNOWN;
  }
  // ---- allocation
  if (has("_Znwm") || has("_Znam")) {
    u64 sz = C(0);
    u64 al = n.find("St11align_val_t") != std::string::npos ? C(1) : 16;
    bool nothrow = n.find("nothrow") != std::string::npos;
    bool fails = s.newFail > 0 && --s.newFail == 0;
    if (fails || sz > (1ull << 34)) {
      if (nothrow) { setRes(s, d, mkConst(0, 64)); return EXT_DONE; }
      throwStd(s, "_ZTISt9bad_alloc");
      return EXT_TRANSFER;
    }
    u64 p = allocObj(s, sz, al, K_HEAP);
    s.mem.back().o->form = n[2] == 'w' ? 1 : 2;
    setRes(s, d, mkConst(p, 64));
    return EXT_DONE;
  }
  if (has("_ZdlPv") || has("_ZdaPv")) {
    u64 p = C(0), size = ~0ull, al = 0;
    size_t i = 1;
    if (n.compare(6, 1, "m") == 0) size = C((int)i++);
    if (n.find("St11align_val_t") != std::string::npos) al = C((int)i);
    freeObj(s, p, "delete", n[2] == 'l' ? 1 : 2, size, al);
    return EXT_DONE;
  }
  if (n == "malloc" || n == "aligned_alloc" || n == "calloc") {
    u64 sz = n == "malloc" ? C(0) : n == "calloc" ? C(0) * C(1) : C(1);
    u64 p = allocObj(s, sz, n == "aligned_alloc" ? C(0) : 16, K_HEAP);
    if (n == "calloc") s.mem.back().o->zero = true;
    setRes(s, d, mkConst(p, 64));
    return EXT_DONE;
  }
  if (n == "free") { freeObj(s, C(0), "free", 0, ~0ull, 0); return EXT_DONE; }
  // ---- exceptions
  if (n == "__cxa_allocate_exception") { setRes(s, d, mkConst(allocObj(s, C(0), 16, K_EXC), 64)); return EXT_DONE; }
  if (n == "__cxa_free_exception") { dropExc(s, C(0)); return EXT_DONE; }
  if (n == "__cxa_throw") {
    Exc e{C(0), C(1), C(2)};
    s.inflight.push_back(e);
    unwind(s, e, false);
    return EXT_TRANSFER;
  }
  if (n == "__cxa_begin_catch") {
    u64 o = C(0);
    for (size_t i = s.inflight.size(); i-- > 0;)
      if (s.inflight[i].obj == o) {
        bool found = false;
        for (auto& c : s.caught) if (c.first.obj == o) { c.second++; found = true; }
        if (!found) s.caught.push_back({s.inflight[i], 1});
        s.inflight.erase(s.inflight.begin() + (long)i);
        break;
      }
    setRes(s, d, mkConst(o, 64));
    return EXT_DONE;
  }
  if (n == "__cxa_end_catch") {
    if (s.caught.empty()) fatal("end_catch without begin_catch");
    auto& c = s.caught.back();
    if (--c.second <= 0) {
      Exc e = c.first;
      s.caught.pop_back();
      for (auto& f : s.inflight) if (f.obj == e.obj) return EXT_DONE;  // rethrown
      if (e.dtor && faddr.count(e.dtor) && !faddr[e.dtor]->isDeclaration()) {
        advanceCall(s);
        s.stack.back();
        pushFrame(s, decode(faddr[e.dtor]), {mkConst(e.obj, 64)}, -1, 1);
        return EXT_TRANSFER;  // the exception object itself stays allocated (harmless)
      }
      dropExc(s, e.obj);
    }
    return EXT_DONE;
  }
  if (n == "__cxa_rethrow") {
    if (s.caught.empty()) err("exception", "rethrow without exception");
    Exc e = s.caught.back().first;
    s.inflight.push_back(e);
    unwind(s, e, false);
    return EXT_TRANSFER;
  }
  if (n == "_ZSt9terminatev") err("exception", "std::terminate called");
  if (n == "__assert_fail") err("libassert", "assertion failed: " + cstr(C(0)));
  if (n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") err("libassert", "libstdc++ assertion: " + cstr(C(3)));
  if (n == "abort" || n == "exit" || n == "_exit") err("abort", n + " called");
  if (n == "__cxa_pure_virtual") err("abort", "pure virtual call");
  if (has("_ZSt") && n.find("__throw_") != std::string::npos) {
    static const std::pair<const char*, const char*> t[] = {
        {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"},
        {"out_of_range", "_ZTISt12out_of_range"}, {"length_error", "_ZTISt12length_error"},
        {"logic_error", "_ZTISt11logic_error"}, {"invalid_argument", "_ZTISt16invalid_argument"},
        {"bad_optional_access", "_ZTISt19bad_optional_access"}, {"bad_function_call", "_ZTISt17bad_function_call"}};
    for (auto& p : t)
      if (n.find(std::string("__throw_") + p.first) != std::string::npos) { throwStd(s, p.second); return EXT_TRANSFER; }
  }
  // constructors/destructors of standard exceptions: no modelled content
  static const char* stdexc[] = {"13runtime_error", "11logic_error", "12out_of_range", "12length_error", "16invalid_argument",
                                 "9bad_alloc", "9exception", "20bad_array_new_length"};
  for (auto x : stdexc) {
    std::string pre = std::string("_ZNSt") + x;
    if (has(pre.c_str()) && (n[pre.size()] == 'C' || n[pre.size()] == 'D')) return EXT_DONE;
  }
  if (has("_ZNSt14overflow_error") || has("_ZNSt11range_error")) return EXT_DONE;
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") { setRes(s, d, mkConst(0, 32)); return EXT_DONE; }
  if (n == "__cxa_guard_acquire") {
    static const TD b8{TD::INT, 8, 1};
    E v = loadAt(C(0), &b8, 1);
    setRes(s, d, mkConst(v->isConst() && v->c ? 0 : 1, 32));
    return EXT_DONE;
  }
  if (n == "__cxa_guard_release") {
    static const TD b8{TD::INT, 8, 1};
    storeAt(C(0), mkConst(1, 8), &b8, 1);
    return EXT_DONE;
  }
  if (n == "__cxa_guard_abort") return EXT_DONE;
  if (n == "memcmp" || n == "bcmp") {
    u64 x = C(0), y = C(1), len = C(2);
    static const TD b8{TD::INT, 8, 1};
    for (u64 i = 0; i < len; i++) {
      E p = loadAt(x + i, &b8, 1), q = loadAt(y + i, &b8, 1);
      if (decide(mkEq(p, q))) continue;
      setRes(s, d, mkConst(decide(mkUlt(p, q)) ? ~0u : 1u, 32));
      return EXT_DONE;
    }
    setRes(s, d, mkConst(0, 32));
    return EXT_DONE;
  }
  if (n == "strlen") { setRes(s, d, mkConst(cstr(C(0)).size(), 64)); return EXT_DONE; }
  if (n == "memcpy" || n == "memmove") { copyMem(C(0), C(1), C(2)); setRes(s, d, a[0]); return EXT_DONE; }
  if (n == "memset") { doMemset(C(0), a[1], C(2)); setRes(s, d, a[0]); return EXT_DONE; }
  if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock") { setRes(s, d, mkConst(0, 32)); return EXT_DONE; }
  return EXT_UNKNOWN;
}
void dropExc(State& s, u64 o) {
  int i = findObj(s, o);
  if (i >= 0 && s.mem[i].o->kind == K_EXC) s.mem.erase(s.mem.begin() + i);
}
void doMemset(u64 p, E v, u64 len) {
  if (!len) return;
  int i = access(*S, p, len, true, 1);
  Object* o = wobj(*S, i);
  E b = mkExtract(v, 0, 8);
  for (u64 k = 0; k < len; k++) {
    if (b->isConst()) o->setConc(p - o->base + k, (u8)b->cv());
    else o->setSym(p - o->base + k, b);
  }
}
E signBits(E v, unsigned w) {  // movemask
  E r = nullptr;
  for (unsigned i = 0; i < v->nk; i++) {
    E b = mkExtract(v->ak[i], v->ak[i]->width - 1, 1);
    r = r ? mkConcat(b, r) : b;
  }
  return mkZExt(r, w);
}
E ctpopE(E x) {
  E r = mkConst(0, x->width);
  for (unsigned i = 0; i < x->width; i++) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), x->width));
  return r;
}
// trailing/leading zeros: case split on the first set bit
E countZeros(E x, bool trailing) {
  unsigned w = x->width;
  if (x->isConst()) {
    unsigned n = 0;
    while (n < w && !((x->c >> (trailing ? n : w - 1 - n)) & 1)) n++;
    return mkConst(n, w);
  }
  // decided bits settle it; otherwise a chain over the remaining ones, so that a
  // speculated count does not split the path
  auto bitAt = [&](unsigned n) { return mkExtract(x, trailing ? n : w - 1 - n, 1); };
  unsigned n0 = 0;
  for (; n0 < w; n0++) {
    int r = implied(*S, bitAt(n0));
    if (r == 1) return mkConst(n0, w);
    if (r < 0) break;
  }
  E r = mkConst(w, w);
  for (unsigned n = w; n-- > n0;) r = mkIte(bitAt(n), mkConst(n, w), r);
  return r;
}
E minmax(E a, E b, int k) {  // 0 umin 1 umax 2 smin 3 smax
  E lt = k < 2 ? mkUlt(a, b) : mkSlt(a, b);
  return (k & 1) ? mkIte(lt, b, a) : mkIte(lt, a, b);
}
E packSat(E a, E b, bool uns) {  // per 128-bit block
  unsigned w = a->ak[0]->width, h = w / 2, per = 128 / w, blocks = a->nk / per;
  std::vector<E> out;
  auto sat = [&](E x) {
    u128 mx = uns ? maskw(h) : maskw(h - 1);
    u128 mn = uns ? 0 : maskw(w) ^ maskw(h - 1);
    E hi = mkConst(mx, w), lo = mkConst(mn, w);
    E y = mkIte(mkSlt(hi, x), hi, mkIte(mkSlt(x, lo), lo, x));
    return mkExtract(y, 0, h);
  };
  for (unsigned k = 0; k < blocks; k++) {
    for (unsigned i = 0; i < per; i++) out.push_back(sat(a->ak[k * per + i]));
    for (unsigned i = 0; i < per; i++) out.push_back(sat(b->ak[k * per + i]));
  }
  return mkAgg(out);
}
bool callIntrinsic(State& s, DInst& d, std::vector<E>& a) {
  auto W = [&](E e) { return e->width; };
  switch (d.imm) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch:
    case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::x86_avx_vzeroupper:
      return true;
    case Intrinsic::stacksave: setRes(s, d, mkConst(0, 64)); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      u64 p = concretize(a[0]), q = concretize(a[1]), n = concretize(a[2]);
      if (n && d.imm != Intrinsic::memmove && p != q && p < q + n && q < p + n) err("memory", "memcpy of overlapping blocks");
      copyMem(p, q, n);
      return true;
    }
    case Intrinsic::memset: { u64 p = concretize(a[0]), n = concretize(a[2]); doMemset(p, a[1], n); return true; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy:
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address:
      setRes(s, d, a[0]);
      return true;
    case Intrinsic::is_constant: setRes(s, d, mkBool(false)); return true;
    case Intrinsic::objectsize: setRes(s, d, mkConst(~(u128)0, d.td->width)); return true;
    case Intrinsic::umin: setRes(s, d, map2(a[0], a[1], [&](E x, E y) { return minmax(x, y, 0); })); return true;
    case Intrinsic::umax: setRes(s, d, map2(a[0], a[1], [&](E x, E y) { return minmax(x, y, 1); })); return true;
    case Intrinsic::smin: setRes(s, d, map2(a[0], a[1], [&](E x, E y) { return minmax(x, y, 2); })); return true;
    case Intrinsic::smax: setRes(s, d, map2(a[0], a[1], [&](E x, E y) { return minmax(x, y, 3); })); return true;
    case Intrinsic::abs:
      setRes(s, d, map1(a[0], [&](E x) { return mkIte(mkSlt(x, mkConst(0, W(x))), mkSub(mkConst(0, W(x)), x), x); }));
      return true;
    case Intrinsic::cttz: setRes(s, d, countZeros(a[0], true)); return true;
    case Intrinsic::ctlz: setRes(s, d, countZeros(a[0], false)); return true;
    case Intrinsic::ctpop: setRes(s, d, map1(a[0], [&](E x) { return ctpopE(x); })); return true;
    case Intrinsic::bswap: {
      E r = nullptr;
      for (unsigned i = 0; i < W(a[0]); i += 8) { E b = mkExtract(a[0], i, 8); r = r ? mkConcat(r, b) : b; }
      setRes(s, d, r);
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = W(a[0]);
      u64 sh = concretize(mkURem(a[2], mkConst(w, w)));
      E cat = mkConcat(a[0], a[1]);
      setRes(s, d, d.imm == Intrinsic::fshl ? mkExtract(cat, (unsigned)(w - sh), w) : mkExtract(cat, (unsigned)sh, w));
      return true;
    }
    case Intrinsic::uadd_with_overflow: { E r = mkAdd(a[0], a[1]); setRes(s, d, mkAgg({r, mkUlt(r, a[0])})); return true; }
    case Intrinsic::usub_with_overflow: setRes(s, d, mkAgg({mkSub(a[0], a[1]), mkUlt(a[0], a[1])})); return true;
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned w = W(a[0]);
      E x = mkSExt(a[0], w + 1), y = mkSExt(a[1], w + 1);
      E r = d.imm == Intrinsic::sadd_with_overflow ? mkAdd(x, y) : mkSub(x, y);
      E lo = mkExtract(r, 0, w);
      setRes(s, d, mkAgg({lo, mkNot(mkEq(mkSExt(lo, w + 1), r))}));
      return true;
    }
    case Intrinsic::umul_with_overflow: {
      unsigned w = W(a[0]);
      E r = mkMul(a[0], a[1]);
      E of;
      if (a[1]->isConst() || a[0]->isConst()) {
        E k = a[1]->isConst() ? a[1] : a[0], x = a[1]->isConst() ? a[0] : a[1];
        of = k->c ? mkUlt(mkConst(maskw(w) / k->c, w), x) : mkBool(false);
      } else {
        if (w > 64) fatal("wide umul");
        E p = mkMul(mkZExt(a[0], 2 * w), mkZExt(a[1], 2 * w));
        of = mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w)));
      }
      setRes(s, d, mkAgg({r, of}));
      return true;
    }
    case Intrinsic::smul_with_overflow: {
      unsigned w = W(a[0]);
      if (w > 64) fatal("wide smul");
      E p = mkMul(mkSExt(a[0], 2 * w), mkSExt(a[1], 2 * w)), lo = mkExtract(p, 0, w);
      setRes(s, d, mkAgg({lo, mkNot(mkEq(mkSExt(lo, 2 * w), p))}));
      return true;
    }
    case Intrinsic::usub_sat:
      setRes(s, d, map2(a[0], a[1], [&](E x, E y) { return mkIte(mkUlt(x, y), mkConst(0, W(x)), mkSub(x, y)); }));
      return true;
    case Intrinsic::uadd_sat:
      setRes(s, d, map2(a[0], a[1], [&](E x, E y) { E r = mkAdd(x, y); return mkIte(mkUlt(r, x), mkConst(maskw(W(x)), W(x)), r); }));
      return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: err("ub", "trap reached (undefined behaviour check)");
    case Intrinsic::eh_typeid_for: setRes(s, d, mkConst(a[0]->cv() & 0x7fffffff, 32)); return true;
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: {
      E r = a[0]->ak[0];
      for (unsigned i = 1; i < a[0]->nk; i++)
        r = d.imm == Intrinsic::vector_reduce_or ? mkOr(r, a[0]->ak[i]) : d.imm == Intrinsic::vector_reduce_and ? mkAnd(r, a[0]->ak[i]) : mkAdd(r, a[0]->ak[i]);
      setRes(s, d, r);
      return true;
    }
    case Intrinsic::x86_avx2_pmovmskb: case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx_movmsk_ps_256:
    case Intrinsic::x86_avx_movmsk_pd_256: case Intrinsic::x86_sse_movmsk_ps: case Intrinsic::x86_sse2_movmsk_pd:
      setRes(s, d, signBits(a[0], 32));
      return true;
    case Intrinsic::x86_avx_cmp_ps_256: case Intrinsic::x86_avx_cmp_pd_256: case Intrinsic::x86_sse_cmp_ps: case Intrinsic::x86_sse2_cmp_pd: {
      static const unsigned pm[8] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO,
                                     CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD};
      static const unsigned pm2[8] = {CmpInst::FCMP_UEQ, CmpInst::FCMP_ULT, CmpInst::FCMP_ULE, CmpInst::FCMP_FALSE,
                                      CmpInst::FCMP_ONE, CmpInst::FCMP_OGE, CmpInst::FCMP_OGT, CmpInst::FCMP_TRUE};
      unsigned i = (unsigned)a[2]->cv() & 15;
      unsigned p = i < 8 ? pm[i] : pm2[i - 8];
      setRes(s, d, map2(a[0], a[1], [&](E x, E y) { return mkSExt(fcmp(p, x, y), W(x)); }));
      return true;
    }
    case Intrinsic::x86_avx2_packsswb: case Intrinsic::x86_avx2_packssdw: case Intrinsic::x86_sse2_packsswb_128: case Intrinsic::x86_sse2_packssdw_128:
      setRes(s, d, packSat(a[0], a[1], false));
      return true;
    case Intrinsic::x86_avx2_packuswb: case Intrinsic::x86_avx2_packusdw: case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_sse41_packusdw:
      setRes(s, d, packSat(a[0], a[1], true));
      return true;
    case Intrinsic::x86_avx2_permd: case Intrinsic::x86_avx2_permps: {
      std::vector<E> out;
      for (unsigned i = 0; i < 8; i++) out.push_back(a[0]->ak[concretize(a[1]->ak[i]) & 7]);
      setRes(s, d, mkAgg(out));
      return true;
    }
    case Intrinsic::x86_avx2_pshuf_b: case Intrinsic::x86_ssse3_pshuf_b_128: {
      std::vector<E> out;
      for (unsigned i = 0; i < a[0]->nk; i++) {
        u64 m = concretize(a[1]->ak[i]);
        out.push_back(m & 0x80 ? mkConst(0, 8) : a[0]->ak[(i & 16) + (m & 15)]);
      }
      setRes(s, d, mkAgg(out));
      return true;
    }
    case Intrinsic::x86_avx_ptestz_256: case Intrinsic::x86_sse41_ptestz: {
      E r = mkBool(true);
      for (unsigned i = 0; i < a[0]->nk; i++) r = mkAnd(r, mkEq(mkAnd(a[0]->ak[i], a[1]->ak[i]), mkConst(0, W(a[0]->ak[i]))));
      setRes(s, d, mkZExt(r, 32));
      return true;
    }
    case Intrinsic::x86_avx_ptestc_256: {
      E r = mkBool(true);
      for (unsigned i = 0; i < a[0]->nk; i++) r = mkAnd(r, mkEq(mkAnd(mkNot(a[0]->ak[i]), a[1]->ak[i]), mkConst(0, W(a[0]->ak[i]))));
      setRes(s, d, mkZExt(r, 32));
      return true;
    }
    case Intrinsic::x86_avx2_maskload_d_256: case Intrinsic::x86_avx2_maskload_q_256: case Intrinsic::x86_avx2_maskload_d:
    case Intrinsic::x86_avx2_maskload_q: case Intrinsic::x86_avx_maskload_ps_256: case Intrinsic::x86_avx_maskload_pd_256: {
      u64 p = concretize(a[0]);
      const TD* e = d.td->f[0].second;
      std::vector<bool> on;
      for (unsigned i = 0; i < a[1]->nk; i++) on.push_back(decide(mkExtract(a[1]->ak[i], e->width - 1, 1)));
      std::vector<E> out;
      for (unsigned i = 0; i < a[1]->nk; i++) out.push_back(on[i] ? loadAt(p + i * e->bytes, e, 1) : mkConst(0, e->width));
      setRes(s, d, mkAgg(out));
      return true;
    }
    default: return false;
  }
}
void doCall(State& s, DInst& d) {
  Frame& f = s.stack.back();
  if (d.imm == ~0ull && !d.callee) {  // inline asm: compiler barriers only
    if (d.dst >= 0) fatal("inline assembly with a result");
    advanceCall(s);
    return;
  }
  std::vector<E> args;
  args.reserve(d.ops.size());
  for (int o : d.ops) args.push_back(val(f, o));
  Function* F = d.callee;
  if (!F) {
    u64 t = concretize(val(f, d.scaled[0].first));
    auto it = faddr.find(t);
    if (it == faddr.end()) err("memory", "call through a pointer that is not a function");
    F = it->second;
  }
  if (F->isIntrinsic()) {
    if (!callIntrinsic(s, d, args)) fatal("intrinsic " + F->getName().str());
    advanceCall(s);
    return;
  }
  if (F->isDeclaration()) {
    int r = callExternal(s, d, F->getName().str(), args);
    if (r == EXT_UNKNOWN) fatal("unmodelled external function " + F->getName().str());
    if (r == EXT_DONE) advanceCall(s);
    return;
  }
  DFunc* D = d.callee ? (d.dcallee ? d.dcallee : (d.dcallee = decode(F))) : decode(F);
  // byval arguments are copied
  if (F->hasFnAttribute(Attribute::NoBuiltin)) {}
  for (unsigned i = 0; i < F->arg_size() && i < args.size(); i++)
    if (F->getArg(i)->hasByValAttr()) {
      Type* T = F->getArg(i)->getParamByValType();
      u64 sz = DL->getTypeAllocSize(T), src = concretize(args[i]);
      u64 p = allocObj(s, sz, 64, K_STACK);
      copyMem(p, src, sz);
      args[i] = mkConst(p, 64);
      bvtmp.push_back(p);
    }
  pushFrame(s, D, args, d.dst);
  for (u64 p : bvtmp) s.stack.back().allocas.push_back(p);
  bvtmp.clear();
}
std::vector<u64> bvtmp;
void doReturn(State& s, E v) {
  Frame& f = s.stack.back();
  popAllocas(s, f);
  int dst = f.retDst;
  u8 sp = f.special;
  s.stack.pop_back();
  if (s.stack.empty()) { pathDone(s); throw PathEnd(); }
  if (sp) return;  // caller's pc already advanced
  if (dst >= 0) s.stack.back().regs[dst] = v;
  advanceCall(s);
}
void pathDone(State& s) {
  flushObligations();
  for (auto& m : s.mem)
    if (m.o->kind == K_HEAP) { err("leak", "heap block never freed"); }
  completed++;
  // reservoir sample of finished paths for replay against the native build
  sampleSeen++;
  size_t slot = samples.size();
  bool take = samples.size() < optSamples;
  if (!take && optSamples) {
    u64 r = rng() % sampleSeen;
    if (r < optSamples) { take = true; slot = (size_t)r; }
  }
  if (take) {
    Sample sm;
    sm.inputs = inputValues(s, *s.model);
    u64 h = 1469598103934665603ull;
    for (E e : s.observed) {
      u64 v = (u64)evalExpr(e, *s.model);
      for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; }
    }
    sm.digest = h;
    sm.nobs = s.observed.size();
    if (slot == samples.size()) samples.push_back(sm); else samples[slot] = sm;
  }
}
// ---------------------------------------------------------------- main loop
void step(State& s) {
  Frame& f = s.stack.back();
  DInst& d = f.f->ins[f.pc];
  d.hit = true;
  switch (d.op) {
    case Instruction::Br:
      if (d.ops.empty()) { takeEdge(f, d.edges[0]); return; }
      { E c = val(f, d.ops[0]); takeEdge(f, d.edges[decide(c) ? 0 : 1]); }
      return;
    case Instruction::Switch: {
      E c = val(f, d.ops[0]);
      for (size_t i = 1; i < d.ops.size(); i++)
        if (decide(mkEq(c, val(f, d.ops[i])))) { takeEdge(f, d.edges[i]); return; }
      takeEdge(f, d.edges[0]);
      return;
    }
    case Instruction::Ret:
      doReturn(s, d.ops.empty() ? nullptr : val(f, d.ops[0]));
      return;
    case Instruction::Unreachable: err("ub", "unreachable code reached");
    case Instruction::Call: case Instruction::Invoke: doCall(s, d); return;
    case Instruction::Resume: {
      u64 o = concretize(val(f, d.ops[0])->ak[0]);
      for (auto& e : s.inflight)
        if (e.obj == o) { Exc x = e; unwind(s, x, true); return; }
      fatal("resume of unknown exception");
    }
    case Instruction::Load: {
      E a = val(f, d.ops[0]);
      if (isFar(a)) {
        if (d.td->k != TD::INT || d.td->width != d.td->bytes * 8) fatal("load of this type from far memory");
        farAlign(a, d.align);
        E v = farLoad(a, (unsigned)d.td->bytes, s.far.size());
        f.regs[d.dst] = v;
        break;
      }
      u64 p = concretize(a);
      f.regs[d.dst] = loadAt(p, d.td, d.align);
      break;
    }
    case Instruction::Store: {
      E a = val(f, d.ops[1]);
      if (isFar(a)) {
        if (d.td->k != TD::INT || d.td->width != d.td->bytes * 8) fatal("store of this type to far memory");
        farAlign(a, d.align);
        s.far.push_back({a, val(f, d.ops[0]), (u32)d.td->bytes});
        break;
      }
      u64 p = concretize(a);
      storeAt(p, val(f, d.ops[0]), d.td, d.align);
      break;
    }
    case Instruction::GetElementPtr: {
      E b = val(f, d.ops[0]);
      E off = mkConst(d.imm, 64);
      for (auto& sc : d.scaled) {
        E i = val(f, sc.first);
        if (i->width < 64) i = mkSExt(i, 64);
        off = mkAdd(off, mkMul(i, mkConst(sc.second, 64)));
      }
      f.regs[d.dst] = mkAdd(b, off);
      break;
    }
    case Instruction::Alloca: {
      u64 n = concretize(val(f, d.ops[0]));
      u64 p = allocObj(s, d.imm * n, d.align, K_STACK);
      f.allocas.push_back(p);
      f.regs[d.dst] = mkConst(p, 64);
      break;
    }
    case Instruction::ICmp: {
      unsigned p = d.pred;
      f.regs[d.dst] = map2(val(f, d.ops[0]), val(f, d.ops[1]), [&](E a, E b) { return icmp(p, a, b); });
      break;
    }
    case Instruction::FCmp: {
      unsigned p = d.pred;
      f.regs[d.dst] = map2(val(f, d.ops[0]), val(f, d.ops[1]), [&](E a, E b) { return fcmp(p, a, b); });
      break;
    }
    case Instruction::Select: {
      E c = val(f, d.ops[0]), a = val(f, d.ops[1]), b = val(f, d.ops[2]);
      if (lanes(c)) {
        std::vector<E> v;
        for (unsigned i = 0; i < c->nk; i++) v.push_back(mkIte(c->ak[i], a->ak[i], b->ak[i]));
        f.regs[d.dst] = mkAgg(v);
      } else if (c->isConst())
        f.regs[d.dst] = c->c ? a : b;
      else if (a == b)
        f.regs[d.dst] = a;
      else if (lanes(a) || d.td->isPtr || (a->isConst() && b->isConst() && a->width >= 32))
        f.regs[d.dst] = decide(c) ? a : b;
      else
        f.regs[d.dst] = mkIte(c, a, b);
      break;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      unsigned op = d.op;
      f.regs[d.dst] = map2(val(f, d.ops[0]), val(f, d.ops[1]), [&](E a, E b) { return binop(op, a, b); });
      break;
    }
    case Instruction::FNeg:
      f.regs[d.dst] = map1(val(f, d.ops[0]), [&](E a) { return mkXor(a, mkConst((u128)1 << (a->width - 1), a->width)); });
      break;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      unsigned w = d.td->k == TD::VEC ? d.td->f[0].second->width : d.td->width;
      unsigned op = d.op;
      f.regs[d.dst] = map1(val(f, d.ops[0]), [&](E a) {
        return op == Instruction::ZExt ? mkZExt(a, w) : op == Instruction::SExt ? mkSExt(a, w) : mkExtract(a, 0, w);
      });
      break;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      E a = val(f, d.ops[0]);
      unsigned w = d.td->width;
      f.regs[d.dst] = a->width >= w ? mkExtract(a, 0, w) : mkZExt(a, w);
      break;
    }
    case Instruction::BitCast: f.regs[d.dst] = bitcastTo(val(f, d.ops[0]), d.td2, d.td); break;
    case Instruction::Freeze: f.regs[d.dst] = val(f, d.ops[0]); break;
    case Instruction::ExtractElement: {
      E v = val(f, d.ops[0]);
      u64 i = concretize(val(f, d.ops[1]));
      f.regs[d.dst] = i < v->nk ? v->ak[i] : zeroVal(d.td);
      break;
    }
    case Instruction::InsertElement: {
      E v = val(f, d.ops[0]);
      u64 i = concretize(val(f, d.ops[2]));
      std::vector<E> k(v->ak, v->ak + v->nk);
      if (i < k.size()) k[i] = val(f, d.ops[1]);
      f.regs[d.dst] = mkAgg(k);
      break;
    }
    case Instruction::ShuffleVector: {
      E a = val(f, d.ops[0]), b = val(f, d.ops[1]);
      std::vector<E> k;
      for (int m : cast<ShuffleVectorInst>(d.I)->getShuffleMask())
        k.push_back(m < 0 ? zeroVal(d.td->f[0].second) : (unsigned)m < a->nk ? a->ak[m] : b->ak[m - a->nk]);
      f.regs[d.dst] = mkAgg(k);
      break;
    }
    case Instruction::ExtractValue: {
      E v = val(f, d.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) v = v->ak[i];
      f.regs[d.dst] = v;
      break;
    }
    case Instruction::InsertValue: {
      auto idx = cast<InsertValueInst>(d.I)->getIndices();
      f.regs[d.dst] = insertAgg(val(f, d.ops[0]), idx.data(), (unsigned)idx.size(), val(f, d.ops[1]));
      break;
    }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: {
      auto* A = cast<AtomicRMWInst>(d.I);
      u64 p = concretize(val(f, d.ops[0]));
      E old = loadAt(p, d.td, 1), v = val(f, d.ops[1]), r;
      switch (A->getOperation()) {
        case AtomicRMWInst::Add: r = mkAdd(old, v); break;
        case AtomicRMWInst::Sub: r = mkSub(old, v); break;
        case AtomicRMWInst::Xchg: r = v; break;
        case AtomicRMWInst::And: r = mkAnd(old, v); break;
        case AtomicRMWInst::Or: r = mkOr(old, v); break;
        default: fatal("atomicrmw");
      }
      storeAt(p, r, d.td, 1);
      f.regs[d.dst] = old;
      break;
    }
    case Instruction::AtomicCmpXchg: {
      u64 p = concretize(val(f, d.ops[0]));
      const TD* e = d.td->f[0].second;
      E cmp = val(f, d.ops[1]);
      E old = loadAt(p, e, 1);
      bool eq = decide(mkEq(old, cmp));
      if (eq) storeAt(p, val(f, d.ops[2]), e, 1);
      f.regs[d.dst] = mkAgg({old, mkBool(eq)});
      break;
    }
    default: fatal(std::string("instruction ") + Instruction::getOpcodeName(d.op));
  }
  f.pc++;
}
void runState(State* st) {
  S = st;
  try {
    for (;;) {
      if ((++st->steps & 0xfff) == 0) {
        if (nowS() - t0 > optTime) fatal("time limit of the exploration reached");
        if (numExprs() > optMaxExprs) fatal("expression limit reached");
      }
      steps++;
      if (st->steps > optMaxSteps) err("nontermination", "step budget of one path exceeded");
      step(*st);
    }
  } catch (PathEnd&) {
  }
  paths++;
  delete st;
  S = nullptr;
}
