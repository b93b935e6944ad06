// symir: symbolic executor for LLVM 18 IR.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <functional>
#include <random>
#include <set>
#include <unordered_map>
#include "state.hpp"
using namespace llvm;

static double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
// ------------------------------------------------------------------ options
static std::string optFile, optEntry = "harness_main", optOut;
static u64 optMaxPaths = ~0ull, optMaxSteps = 50000000, optSamples = 8, optSeed = 1, optMaxViol = 4;
static double optTime = 600;
static bool optParanoid = false, optNoFast = false, optTrace = false;
static u64 optAudit = 200;
static bool optForkSites = false;
static std::map<std::string, u64> optParams;
static size_t optMaxExprs = 40u * 1000 * 1000;

// ------------------------------------------------------------------ decode
struct TD {
  enum K { INT, VEC, AGGR } k;
  unsigned width = 0;   // INT: bits
  u64 bytes = 0;        // store size
  unsigned n = 0;       // VEC: lanes
  std::vector<std::pair<u64, const TD*>> f;  // AGGR fields; VEC: f[0].second = elem
  bool isPtr = false;
};
struct Edge {
  u32 target;
  std::vector<std::pair<int, int>> moves;
};
struct DInst {
  u16 op = 0, pred = 0;
  int dst = -1;
  std::vector<int> ops;
  const Instruction* I = nullptr;
  const TD* td = nullptr;   // result / accessed type
  const TD* td2 = nullptr;  // operand type
  u64 imm = 0;
  u64 align = 1;
  std::vector<std::pair<int, u64>> scaled;  // GEP
  std::vector<int> edges;
  Function* callee = nullptr;
  DFunc* dcallee = nullptr;
  int handler = -1;
  bool hit = false;
  unsigned line = 0;
  const DILocation* loc = nullptr;
};
struct DFunc {
  Function* F;
  std::string name;
  std::vector<DInst> ins;
  std::vector<Edge> edges;
  std::vector<E> consts;
  int nregs = 0;
  std::map<const BasicBlock*, u32> bbStart;
  u64 calls = 0;
  bool inLib = false;
};
struct PathEnd {};  // thrown to leave the current path
struct Refork {};   // (unused) re-execute

struct Violation {
  std::string kind, msg;
  std::vector<std::string> stack;
  std::vector<std::pair<unsigned, u64>> inputs;  // (kind, value)
  std::string key;
};
struct Sample {
  std::vector<std::pair<unsigned, u64>> inputs;
  u64 digest;
  u64 nobs;
};

struct Exec {
  LLVMContext C;
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  std::unordered_map<const Type*, const TD*> tds;
  std::unordered_map<const Function*, DFunc*> funcs;
  std::unordered_map<const GlobalValue*, u64> gaddr;
  std::unordered_map<u64, Function*> faddr;
  std::map<u64, const GlobalVariable*> gvAt;
  std::map<std::string, u64> synthTI;  // synthetic typeinfo name -> address
  std::map<u64, std::string> tiName;
  u64 nextGlobal = 0x10000;
  std::vector<State*> work;
  std::mt19937_64 rng;
  // statistics
  u64 paths = 0, completed = 0, killed = 0, forks = 0, steps = 0, symBranches = 0, impliedFast = 0;
  std::map<std::string, u64> forkSites;
  u64 sinceAudit = 0, ordState = ~0ull;
  u64 oblTotal = 0, oblConst = 0, oblSolver = 0, memChecks = 0, concretized = 0, nextId = 0, uninitReads = 0;
  u64 maxPC = 0, vpaths = 0;
  std::map<std::string, u64> covers;
  std::vector<Violation> viols;
  std::set<std::string> violKeys;
  std::vector<Sample> samples;
  u64 sampleSeen = 0;
  std::string inconclusive;
  double t0 = nowS();
  State* S = nullptr;  // current

  // ---------------------------------------------------------------- types
  const TD* td(Type* T) {
    auto it = tds.find(T);
    if (it != tds.end()) return it->second;
    TD* d = new TD();
    if (T->isVoidTy()) { d->k = TD::AGGR; }
    else if (auto* V = dyn_cast<FixedVectorType>(T)) {
      d->k = TD::VEC;
      d->n = V->getNumElements();
      const TD* e = td(V->getElementType());
      d->f.push_back({0, e});
      d->bytes = DL->getTypeStoreSize(T);
    } else if (auto* ST = dyn_cast<StructType>(T)) {
      d->k = TD::AGGR;
      const StructLayout* L = DL->getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++)
        d->f.push_back({L->getElementOffset(i), td(ST->getElementType(i))});
      d->bytes = DL->getTypeAllocSize(T);
    } else if (auto* AT = dyn_cast<ArrayType>(T)) {
      d->k = TD::AGGR;
      u64 es = DL->getTypeAllocSize(AT->getElementType());
      for (unsigned i = 0; i < AT->getNumElements(); i++) d->f.push_back({i * es, td(AT->getElementType())});
      d->bytes = DL->getTypeAllocSize(T);
    } else if (T->isSized()) {
      d->k = TD::INT;
      d->width = (unsigned)DL->getTypeSizeInBits(T);
      d->bytes = DL->getTypeStoreSize(T);
      d->isPtr = T->isPointerTy();
    } else {
      d->k = TD::AGGR;
    }
    tds[T] = d;
    return d;
  }
  E zeroVal(const TD* d) {
    if (d->k == TD::INT) return mkConst(0, d->width);
    std::vector<E> v;
    if (d->k == TD::VEC) for (unsigned i = 0; i < d->n; i++) v.push_back(zeroVal(d->f[0].second));
    else for (auto& f : d->f) v.push_back(zeroVal(f.second));
    return mkAgg(v);
  }
  // ---------------------------------------------------------------- globals
  u64 addrOf(const GlobalValue* G) {
    if (auto* A = dyn_cast<GlobalAlias>(G)) return addrOf(cast<GlobalValue>(A->getAliasee()->stripPointerCasts()));
    auto it = gaddr.find(G);
    if (it != gaddr.end()) return it->second;
    u64 al = 16, sz = 16;
    if (auto* V = dyn_cast<GlobalVariable>(G)) {
      al = std::max<u64>(al, V->getAlign().valueOrOne().value());
      sz = V->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(V->getValueType()) : 64;
      if (!V->hasInitializer()) sz = std::max<u64>(sz, 256);
    }
    nextGlobal = (nextGlobal + al - 1) / al * al;
    u64 a = nextGlobal;
    nextGlobal += sz + 64;
    gaddr[G] = a;
    if (auto* F = dyn_cast<Function>(G)) faddr[a] = const_cast<Function*>(F);
    if (auto* V = dyn_cast<GlobalVariable>(G)) { gvAt[a] = V; tiName[a] = V->getName().str(); }
    return a;
  }
  u64 typeinfoAddr(const std::string& n) {
    if (auto* G = M->getNamedGlobal(n)) return addrOf(G);
    auto it = synthTI.find(n);
    if (it != synthTI.end()) return it->second;
    nextGlobal = (nextGlobal + 15) / 16 * 16;
    u64 a = nextGlobal;
    nextGlobal += 64;
    synthTI[n] = a;
    tiName[a] = n;
    return a;
  }
  E constVal(const Constant* K) {
    Type* T = K->getType();
    const TD* d = td(T);
    if (auto* CI = dyn_cast<ConstantInt>(K)) {
      u128 v = CI->getValue().getLoBits(std::min(64u, d->width)).zextOrTrunc(64).getZExtValue();
      if (d->width > 64) v |= (u128)CI->getValue().lshr(64).zextOrTrunc(64).getZExtValue() << 64;
      return mkConst(v, d->width);
    }
    if (auto* CF = dyn_cast<ConstantFP>(K)) {
      APInt b = CF->getValueAPF().bitcastToAPInt();
      return mkConst(b.zextOrTrunc(64).getZExtValue(), d->width);
    }
    if (isa<ConstantPointerNull>(K)) return mkConst(0, 64);
    if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) return zeroVal(d);
    if (auto* G = dyn_cast<GlobalValue>(K)) return mkConst(addrOf(G), 64);
    if (auto* DV = dyn_cast<ConstantDataSequential>(K)) {
      std::vector<E> v;
      for (unsigned i = 0; i < DV->getNumElements(); i++) v.push_back(constVal(DV->getElementAsConstant(i)));
      return mkAgg(v);
    }
    if (isa<ConstantVector>(K) || isa<ConstantStruct>(K) || isa<ConstantArray>(K)) {
      std::vector<E> v;
      for (unsigned i = 0; i < K->getNumOperands(); i++) v.push_back(constVal(cast<Constant>(K->getOperand(i))));
      return mkAgg(v);
    }
    if (auto* CE = dyn_cast<ConstantExpr>(K)) {
      switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          E base = constVal(cast<Constant>(CE->getOperand(0)));
          if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) fatal("const gep");
          return mkAdd(base, mkConst((u64)off.getSExtValue(), 64));
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          E b = constVal(cast<Constant>(CE->getOperand(0)));
          return b->width >= d->width ? mkExtract(b, 0, d->width) : mkZExt(b, d->width);
        }
        case Instruction::BitCast: return constVal(cast<Constant>(CE->getOperand(0)));
        case Instruction::Add: return mkAdd(constVal(cast<Constant>(CE->getOperand(0))), constVal(cast<Constant>(CE->getOperand(1))));
        case Instruction::Sub: return mkSub(constVal(cast<Constant>(CE->getOperand(0))), constVal(cast<Constant>(CE->getOperand(1))));
        case Instruction::Trunc: return mkExtract(constVal(cast<Constant>(CE->getOperand(0))), 0, d->width);
        default: break;
      }
    }
    std::string s;
    raw_string_ostream os(s);
    K->print(os);
    fatal("constant: " + s);
    return nullptr;
  }
  [[noreturn]] void fatal(const std::string& m) {
    if (inconclusive.empty()) inconclusive = m;
    throw PathEnd();
  }
  void initGlobals(State& s) {
    for (auto& G : M->globals()) addrOf(&G);
    for (auto& F : M->functions()) addrOf(&F);
    for (auto& F : M->functions()) {
      if (F.isDeclaration()) continue;
    }
    // force all typeinfos used by the runtime to exist before objects are laid out
    for (const char* n : {"_ZTISt9bad_alloc", "_ZTISt12out_of_range", "_ZTISt12length_error", "_ZTISt16invalid_argument",
                          "_ZTISt11logic_error", "_ZTISt20bad_array_new_length", "_ZTISt17bad_function_call",
                          "_ZTISt19bad_optional_access", "_ZTISt13runtime_error", "_ZTISt9exception", "_ZTISt8bad_cast"})
      typeinfoAddr(n);
    std::vector<std::pair<u64, Object*>> objs;
    for (auto& G : M->globals()) {
      u64 a = gaddr[&G];
      u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64;
      if (!G.hasInitializer()) sz = std::max<u64>(sz, 256);
      if (sz == 0) sz = 1;
      Object* o = new Object(a, sz, K_GLOBAL);
      o->zero = true;
      o->who = &G;
      if (G.hasInitializer() && !isa<ConstantAggregateZero>(G.getInitializer()) && !isa<UndefValue>(G.getInitializer()))
        storeInto(o, 0, constVal(G.getInitializer()), td(G.getValueType()));
      if (G.getName() == "__libc_single_threaded") o->setConc(0, 1);
      o->ro = G.isConstant();
      objs.push_back({a, o});
    }
    for (auto& F : M->functions()) {
      Object* o = new Object(gaddr[&F], 16, K_FUNC);
      o->ro = true;
      objs.push_back({gaddr[&F], o});
    }
    std::sort(objs.begin(), objs.end());
    for (auto& p : objs) s.mem.push_back(ObjRef(p.second));
    s.nextAddr = (nextGlobal + 0xffff) & ~0xffffull;
    if (s.nextAddr < 0x1000000) s.nextAddr = 0x1000000;
  }
  void storeInto(Object* o, u64 off, E v, const TD* d) {
    if (d->k == TD::INT) {
      unsigned nb = (unsigned)d->bytes;
      E x = d->width == nb * 8 ? v : mkZExt(v, nb * 8);
      if (x->isConst()) {
        u128 c = x->c;
        for (unsigned i = 0; i < nb; i++, c >>= 8) o->setConc(off + i, (u8)c);
      } else
        for (unsigned i = 0; i < nb; i++) o->setSym(off + i, mkExtract(x, i * 8, 8));
    } else if (d->k == TD::VEC) {
      const TD* e = d->f[0].second;
      if (e->width % 8) fatal("store of sub-byte vector");
      for (unsigned i = 0; i < d->n; i++) storeInto(o, off + i * e->bytes, v->ak[i], e);
    } else {
      for (size_t i = 0; i < d->f.size(); i++) storeInto(o, off + d->f[i].first, v->ak[i], d->f[i].second);
    }
  }
  // ---------------------------------------------------------------- decode
  struct FnBuild {
    DFunc* D;
    std::unordered_map<const Value*, int> reg;
    std::unordered_map<const Value*, int> cidx;
  };
  int opnd(FnBuild& B, const Value* V) {
    auto it = B.reg.find(V);
    if (it != B.reg.end()) return it->second;
    auto c = B.cidx.find(V);
    if (c != B.cidx.end()) return c->second;
    if (auto* K = dyn_cast<Constant>(V)) {
      B.D->consts.push_back(constVal(K));
      int id = -(int)B.D->consts.size();
      B.cidx[V] = id;
      return id;
    }
    if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) {
      B.D->consts.push_back(mkConst(0, 64));
      return -(int)B.D->consts.size();
    }
    fatal("operand kind");
  }
  int mkEdge(FnBuild& B, const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    e.target = 0;
    for (auto& P : to->phis()) {
      const Value* v = P.getIncomingValueForBlock(from);
      e.moves.push_back({B.reg[&P], opnd(B, v)});
    }
    B.D->edges.push_back(e);
    edgeBB.push_back(to);
    return (int)B.D->edges.size() - 1;
  }
  std::vector<const BasicBlock*> edgeBB;
  DFunc* decode(Function* F) {
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    DFunc* D = new DFunc();
    funcs[F] = D;
    D->F = F;
    D->name = demangle(F->getName().str());
    if (auto* SP = F->getSubprogram())
      D->inLib = SP->getFile() && (SP->getDirectory() + "/" + SP->getFilename()).str().find("fast_containers") != std::string::npos;
    FnBuild B{D, {}, {}};
    for (auto& A : F->args()) B.reg[&A] = D->nregs++;
    for (auto& BB : *F)
      for (auto& I : BB)
        if (!I.getType()->isVoidTy()) B.reg[&I] = D->nregs++;
    edgeBB.clear();
    for (auto& BB : *F) {
      D->bbStart[&BB] = (u32)D->ins.size();
      for (auto& I : BB) {
        if (isa<PHINode>(I)) continue;
        if (isa<DbgInfoIntrinsic>(I)) continue;
        DInst d;
        d.op = (u16)I.getOpcode();
        d.I = &I;
        if (auto r = B.reg.find(&I); r != B.reg.end()) d.dst = r->second;
        if (auto& L = I.getDebugLoc()) {
          d.line = L.getLine();
          d.loc = L.get();
        }
        if (!I.getType()->isVoidTy()) d.td = td(I.getType());
        if (auto* BI = dyn_cast<BranchInst>(&I)) {
          if (BI->isConditional()) {
            d.ops.push_back(opnd(B, BI->getCondition()));
            d.edges.push_back(mkEdge(B, &BB, BI->getSuccessor(0)));
            d.edges.push_back(mkEdge(B, &BB, BI->getSuccessor(1)));
          } else
            d.edges.push_back(mkEdge(B, &BB, BI->getSuccessor(0)));
        } else if (auto* SI = dyn_cast<SwitchInst>(&I)) {
          d.ops.push_back(opnd(B, SI->getCondition()));
          d.edges.push_back(mkEdge(B, &BB, SI->getDefaultDest()));
          for (auto& c : SI->cases()) {
            d.ops.push_back(opnd(B, c.getCaseValue()));
            d.edges.push_back(mkEdge(B, &BB, c.getCaseSuccessor()));
          }
        } else if (auto* GI = dyn_cast<GetElementPtrInst>(&I)) {
          if (GI->getType()->isVectorTy()) fatal("vector gep");
          d.ops.push_back(opnd(B, GI->getPointerOperand()));
          u64 off = 0;
          for (gep_type_iterator g = gep_type_begin(GI), e = gep_type_end(GI); g != e; ++g) {
            Value* idx = g.getOperand();
            if (StructType* ST = g.getStructTypeOrNull())
              off += DL->getStructLayout(ST)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
            else {
              u64 sc = DL->getTypeAllocSize(g.getIndexedType());
              if (auto* CI = dyn_cast<ConstantInt>(idx)) off += (u64)CI->getSExtValue() * sc;
              else d.scaled.push_back({opnd(B, idx), sc});
            }
          }
          d.imm = off;
        } else if (auto* LI = dyn_cast<LoadInst>(&I)) {
          d.ops.push_back(opnd(B, LI->getPointerOperand()));
          d.align = LI->getAlign().value();
        } else if (auto* StI = dyn_cast<StoreInst>(&I)) {
          d.ops.push_back(opnd(B, StI->getValueOperand()));
          d.ops.push_back(opnd(B, StI->getPointerOperand()));
          d.td = td(StI->getValueOperand()->getType());
          d.align = StI->getAlign().value();
        } else if (auto* CB = dyn_cast<CallBase>(&I)) {
          for (auto& a : CB->args()) d.ops.push_back(opnd(B, a.get()));
          Value* cv = CB->getCalledOperand()->stripPointerCasts();
          if (auto* A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliasee()->stripPointerCasts();
          if (auto* CF = dyn_cast<Function>(cv)) {
            d.callee = CF;
            if (CF->isIntrinsic()) d.imm = CF->getIntrinsicID();
          } else if (isa<InlineAsm>(cv)) {
            d.imm = ~0ull;
          } else
            d.scaled.push_back({opnd(B, cv), 0});
          if (auto* II = dyn_cast<InvokeInst>(&I)) {
            d.edges.push_back(mkEdge(B, &BB, II->getNormalDest()));
            d.edges.push_back(mkEdge(B, &BB, II->getUnwindDest()));
          }
          if (d.ops.size()) d.td2 = td(CB->getArgOperand(0)->getType()->isMetadataTy() ? Type::getVoidTy(C) : CB->getArgOperand(0)->getType());
        } else {
          for (auto& o : I.operands()) {
            if (isa<BasicBlock>(o.get())) continue;
            if (isa<LandingPadInst>(I)) break;
            d.ops.push_back(opnd(B, o.get()));
          }
          if (I.getNumOperands()) d.td2 = isa<LandingPadInst>(I) ? nullptr : td(I.getOperand(0)->getType());
          if (auto* CI = dyn_cast<CmpInst>(&I)) d.pred = (u16)CI->getPredicate();
          if (auto* AI = dyn_cast<AllocaInst>(&I)) {
            d.imm = DL->getTypeAllocSize(AI->getAllocatedType());
            d.align = AI->getAlign().value();
          }
        }
        D->ins.push_back(std::move(d));
      }
    }
    for (size_t i = 0; i < D->edges.size(); i++) D->edges[i].target = D->bbStart[edgeBB[i]];
    return D;
  }
  // ---------------------------------------------------------------- violations
  std::vector<std::string> stackTrace(State& s) {
    std::vector<std::string> v;
    for (int i = (int)s.stack.size() - 1; i >= 0 && v.size() < 24; i--) {
      Frame& f = s.stack[i];
      if (f.pc >= f.f->ins.size()) continue;
      const DILocation* L = f.f->ins[f.pc].loc;
      while (L && v.size() < 24) {
        std::string fn = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "?";
        std::string fi = L->getFilename().str();
        size_t p = fi.rfind('/');
        v.push_back(fn + " (" + (p == std::string::npos ? fi : fi.substr(p + 1)) + ":" + std::to_string(L->getLine()) + ")");
        L = L->getInlinedAt();
      }
      if (!f.f->ins[f.pc].loc) v.push_back(f.f->name.substr(0, 80));
    }
    return v;
  }
  std::vector<std::pair<unsigned, u64>> inputValues(State& s, const Model& m) {
    std::vector<std::pair<unsigned, u64>> r;
    for (size_t i = 0; i < s.inputs.size(); i++) r.push_back({s.inputKinds[i], (u64)evalExpr(s.inputs[i], m)});
    return r;
  }
  void recordViolation(State& s, const std::string& kind, const std::string& msg, const std::string& where, const Model& m) {
    vpaths++;
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.stack = stackTrace(s);
    if (!where.empty()) v.stack.insert(v.stack.begin(), where);
    std::string libf;
    for (auto& x : v.stack)
      if (x.find(".hpp:") != std::string::npos || x.find(".ipp:") != std::string::npos) { libf = x.substr(0, x.find(' ')); break; }
    v.key = kind + "|" + msg + "|" + libf;
    v.inputs = inputValues(s, m);
    if (violKeys.insert(v.key).second) viols.push_back(v);
    if (optTrace) {
      fprintf(stderr, "VIOL %s: %s\n", kind.c_str(), msg.c_str());
      for (auto& x : v.stack) fprintf(stderr, "   %s\n", x.c_str());
    }
  }
  [[noreturn]] void err(const std::string& kind, const std::string& msg) {
    recordViolation(*S, kind, msg, "", *S->model);
    throw PathEnd();
  }
  // ---------------------------------------------------------------- constraints
  void addPC(State& s, E c) {
    if (c->isTrue()) return;
    if (c->op == O_AND && c->width == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
    for (E e : s.pc) if (e == c) return;
    s.pc.push_back(c);
    if (s.pc.size() > maxPC) maxPC = s.pc.size();
    orderAdd(s.ord, c);
    g_ordVersion++;
  }
  int implied(State& s, E c) {
    if (c->isConst()) return (int)c->cv();
    E n = mkNot(c);
    for (size_t i = s.pc.size(); i-- > 0;) {
      if (s.pc[i] == c) return 1;
      if (s.pc[i] == n) return 0;
    }
    if (optNoFast) return -1;
    int r = orderImplied(s.ord, c);
    if (r < 0) {
      if (ordState != s.id) { ordState = s.id; g_ordVersion++; }
      E c2 = orderRewrite(s.ord, c);
      if (c2->isConst()) r = (int)c2->cv();
    }
    if (r >= 0 && (optParanoid || ++sinceAudit >= optAudit)) {
      sinceAudit = 0;
      g_ss.paranoid++;
      if (solverCheck(s.pc, r ? n : c, nullptr) != R_UNSAT) { fprintf(stderr, "fast path disagrees with solver\n"); exit(3); }
    }
    return r;
  }
  // c rewritten with what the path condition says about comparisons
  E narrow(State& s, E c) {
    if (optNoFast) return c;
    if (ordState != s.id) { ordState = s.id; g_ordVersion++; }
    return orderRewrite(s.ord, c);
  }
  // truth value of c on this path; forks when both are possible. Must be called
  // before the current instruction has any effect (the clone re-executes it).
  bool decide(E c) {
    State& s = *S;
    if (c->isConst()) return c->cv();
    symBranches++;
    int r = implied(s, c);
    if (r >= 0) { impliedFast++; return r; }
    c = narrow(s, c);
    bool v = evalExpr(c, *s.model) != 0;
    E yes = v ? c : mkNot(c), no = v ? mkNot(c) : c;
    ModelP m2;
    Res q = solverCheck(s.pc, no, &m2);
    if (q == R_UNKNOWN) fatal("solver gave no answer on a branch");
    if (q == R_UNSAT) { orderAdd(s.ord, yes); g_ordVersion++; return v; }
    forks++;
    if (optForkSites) { auto st = stackTrace(s); std::string k; for (size_t i = 0; i < st.size() && i < 3; i++) k += st[i] + " < "; if (!forkSites[k]++) { if (getenv("SYMIR_COND")) fprintf(stderr, "%s %s\n", k.c_str(), toStr(c).c_str()) ; }; }
    State* o = new State(s);
    o->id = ++nextId;
    o->depth++;
    addPC(*o, no);
    o->model = m2;
    work.push_back(o);
    addPC(s, yes);
    return v;
  }
  u64 concretize(E e) {
    if (e->isConst()) return e->cv();
    concretized++;
    for (int guard = 0; guard < 100000; guard++) {
      u128 v = evalExpr(e, *S->model);
      if (decide(mkEq(e, mkConst(v, e->width)))) return (u64)v;
      // decide() always keeps the model's side, so this is not reached
    }
    fatal("concretize");
  }
  // the path continues only where c holds
  void assume(E c) {
    State& s = *S;
    int r = implied(s, c);
    if (r == 1) return;
    flushObligations();
    if (r == 0) { killed++; throw PathEnd(); }
    if (evalExpr(c, *s.model)) { addPC(s, c); return; }
    ModelP m2;
    Res q = solverCheck(s.pc, c, &m2);
    if (q == R_UNKNOWN) fatal("solver gave no answer on an assumption");
    if (q == R_UNSAT) { killed++; throw PathEnd(); }
    s.model = m2;
    addPC(s, c);
  }
  void oblige(E c, const char* msg) {
    oblTotal++;
    if (c->isTrue()) { oblConst++; return; }
    State& s = *S;
    if (implied(s, c) == 1) { oblConst++; return; }
    std::string where;
    auto st = stackTrace(s);
    if (st.size()) where = st[0];
    if (!evalExpr(c, *s.model)) {
      recordViolation(s, "assert", msg, "", *s.model);
      throw PathEnd();
    }
    s.obl.push_back({narrow(s, c), msg, where});
  }
  void flushObligations() {
    State& s = *S;
    if (s.obl.empty()) return;
    for (auto& o : s.obl)
      if (!evalExpr(o.cond, *s.model)) {
        recordViolation(s, "assert", o.msg, o.where, *s.model);
        throw PathEnd();
      }
    E all = mkBool(true);
    for (auto& o : s.obl) all = mkAnd(all, o.cond);
    ModelP m2;
    oblSolver += s.obl.size();
    Res q = solverCheck(s.pc, mkNot(all), &m2);
    if (q == R_UNKNOWN) {
      // one by one
      for (auto& o : s.obl) {
        q = solverCheck(s.pc, mkNot(o.cond), &m2);
        if (q == R_UNKNOWN) fatal(std::string("solver gave no answer on assertion: ") + o.msg);
        if (q == R_SAT) break;
      }
    }
    if (q == R_SAT) {
      for (auto& o : s.obl)
        if (!evalExpr(o.cond, *m2)) {
          recordViolation(s, "assert", o.msg, o.where, *m2);
          break;
        }
      throw PathEnd();
    }
    s.obl.clear();
  }
  // ---------------------------------------------------------------- memory
  int findObj(State& s, u64 a) {
    size_t lo = 0, hi = s.mem.size();
    while (lo < hi) {
      size_t m = (lo + hi) / 2;
      if (s.mem[m].o->base <= a) lo = m + 1; else hi = m;
    }
    if (!lo) return -1;
    Object* o = s.mem[lo - 1].o;
    if (a - o->base < o->size || (a == o->base)) return (int)lo - 1;
    return -1;
  }
  Object* wobj(State& s, int i) {
    Object*& o = s.mem[i].o;
    if (o->rc > 1) {
      Object* n = o->clone();
      o->rc--;
      o = n;
    }
    return o;
  }
  std::string describeAddr(State& s, u64 a) {
    char b[200];
    if (a < 4096) return "null pointer access";
    for (auto& f : s.freed)
      if (a >= f.first && a < f.first + f.second) {
        snprintf(b, sizeof b, "freed memory (offset %llu of a freed block of %llu)", (unsigned long long)(a - f.first), (unsigned long long)f.second);
        return b;
      }
    size_t lo = 0;
    while (lo < s.mem.size() && s.mem[lo].o->base <= a) lo++;
    if (lo) {
      Object* o = s.mem[lo - 1].o;
      if (a < o->base + o->size + 4096) {
        snprintf(b, sizeof b, "%llu bytes past a %s block of %llu", (unsigned long long)(a - o->base - o->size),
                 o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global", (unsigned long long)o->size);
        return b;
      }
    }
    return "unmapped memory";
  }
  int access(State& s, u64 a, u64 n, bool write, u64 align) {
    memChecks++;
    if (align > 1 && (a & (align - 1))) err("memory", "misaligned access");
    int i = findObj(s, a);
    if (i < 0) {
      if (n == 0) return -1;
      err("memory", std::string(write ? "write to " : "read of ") + describeAddr(s, a));
    }
    Object* o = s.mem[i].o;
    if (a + n > o->base + o->size) err("memory", std::string(write ? "write to " : "read of ") + describeAddr(s, o->base + o->size));
    if (write && o->ro) err("memory", "write to read-only memory");
    if (o->kind == K_FUNC) err("memory", "access to code");
    return i;
  }
  E freshUndef(unsigned w) {
    uninitReads++;
    return mkVar("u" + std::to_string(S->uninitCount++), w);
  }
  E loadInt(State& s, int oi, u64 off, unsigned nb, unsigned width) {
    Object* o = s.mem[oi].o;
    // fast path: concrete within one chunk
    if ((off & 63) + nb <= 64 && nb <= 16) {
      Chunk* c = o->ch[off >> 6];
      u64 mask = (nb == 64 ? ~0ull : ((1ull << nb) - 1)) << (off & 63);
      if (!c) {
        if (o->zero) return mkConst(0, width);
      } else if (!((c->sym | c->undef) & mask)) {
        u128 v = 0;
        memcpy(&v, c->b + (off & 63), nb);
        return mkConst(v, width);
      }
    }
    E r = nullptr;
    for (unsigned i = 0; i < nb; i++) {
      u8 v = 0;
      E e = nullptr;
      int k = s.mem[oi].o->getByte(off + i, v, e);
      if (k == 0) e = mkConst(v, 8);
      else if (k == 2) {
        e = freshUndef(8);
        wobj(s, oi)->setSym(off + i, e);
      }
      r = r ? mkConcat(e, r) : e;
    }
    return r->width == width ? r : mkExtract(r, 0, width);
  }
  E loadTD(State& s, int oi, u64 off, const TD* d) {
    if (d->k == TD::INT) return loadInt(s, oi, off, (unsigned)d->bytes, d->width);
    std::vector<E> v;
    if (d->k == TD::VEC) {
      const TD* e = d->f[0].second;
      if (e->width % 8) fatal("load of sub-byte vector");
      for (unsigned i = 0; i < d->n; i++) v.push_back(loadTD(s, oi, off + i * e->bytes, e));
    } else
      for (auto& f : d->f) v.push_back(loadTD(s, oi, off + f.first, f.second));
    return mkAgg(v);
  }
  E loadAt(u64 a, const TD* d, u64 align) {
    int i = access(*S, a, d->bytes, false, align);
    if (i < 0) return zeroVal(d);
    return loadTD(*S, i, a - S->mem[i].o->base, d);
  }
  void storeAt(u64 a, E v, const TD* d, u64 align) {
    int i = access(*S, a, d->bytes, true, align);
    if (i < 0) return;
    storeInto(wobj(*S, i), a - S->mem[i].o->base, v, d);
  }
  // Memory whose address is symbolic: zero at first, then the time-ordered list
  // of the stores made to it.
  bool isFar(E a) {
    State& s = *S;
    if (!s.farHi) return false;
    if (a->isConst()) return a->cv() >= s.farLo && a->cv() < s.farHi;
    return decide(mkAnd(mkNot(mkUlt(a, mkConst(s.farLo, 64))), mkUlt(a, mkConst(s.farHi, 64))));
  }
  void farAlign(E a, u64 align) {
    memChecks++;
    if (align > 1 && decide(mkNot(mkEq(mkAnd(a, mkConst(align - 1, 64)), mkConst(0, 64))))) err("memory", "misaligned access");
  }
  E farLoad(E a, unsigned nb, size_t upto) {
    State& s = *S;
    auto apart = [&](FarStore& t) {  // no sum wraps: both lie in the far range
      return mkOr(mkUlt(mkAdd(t.addr, mkConst(t.bytes - 1, 64)), a), mkUlt(mkAdd(a, mkConst(nb - 1, 64)), t.addr));
    };
    {  // usually: the same address as an earlier store, apart from all later ones
      E all = mkBool(true);
      size_t i = upto;
      while (i > 0 && !(s.far[i - 1].addr == a && s.far[i - 1].bytes == nb)) all = mkAnd(all, apart(s.far[--i]));
      if (decide(all)) return i ? s.far[i - 1].val : mkConst(0, nb * 8);
    }
    for (size_t i = upto; i-- > 0;) {
      FarStore& t = s.far[i];
      if (decide(apart(t))) continue;
      if (nb == t.bytes && decide(mkEq(a, t.addr))) return t.val;
      E diff = mkSub(a, t.addr);
      int64_t k = (int64_t)concretize(diff);
      E r = nullptr;
      for (unsigned j = 0; j < nb; j++) {
        int64_t o = k + j;
        E b = o >= 0 && o < (int64_t)t.bytes ? mkExtract(t.val, (unsigned)o * 8, 8) : farLoad(mkAdd(a, mkConst(j, 64)), 1, i);
        r = r ? mkConcat(b, r) : b;
      }
      return r;
    }
    return mkConst(0, nb * 8);
  }
  u64 allocObj(State& s, u64 size, u64 align, ObjKind k) {
    u64 a = s.nextAddr;
    if (align < 16) align = 16;
    a = (a + 63) / 64 * 64 + 16;  // default blocks are 16- but not 32-aligned
    if (align > 16) a = (a + align - 1) / align * align;
    if (align > 16 && align < (1u << 20) && (a & align) == 0) a += align;  // exactly the requested alignment
    Object* o = new Object(a, size ? size : 1, k);
    o->align = align;
    o->ord = (u32)s.heapOrd++;
    s.mem.push_back(ObjRef(o));
    s.nextAddr = a + size + 128;
    return a;
  }
  void freeObj(State& s, u64 a, const char* how, u8 form, u64 size, u64 align) {
    if (!a) return;
    int i = findObj(s, a);
    if (i < 0 || s.mem[i].o->base != a || s.mem[i].o->kind != K_HEAP) {
      std::string d = i < 0 ? describeAddr(s, a) : "a pointer that is not the start of a heap block";
      err("memory", std::string("bad free (") + how + ") of " + d);
    }
    Object* o = s.mem[i].o;
    if (o->form != form) err("memory", "mismatched allocation and deallocation functions");
    if (size != ~0ull && size != o->size) err("memory", "sized delete with wrong size");
    if (align && o->align > 16 && align != o->align) err("memory", "aligned delete with wrong alignment");
    if (!align && o->align > 16 && form) err("memory", "over-aligned block freed without alignment");
    s.freed.push_back({o->base, o->size});
    s.mem.erase(s.mem.begin() + i);
  }
  void copyMem(u64 dst, u64 src, u64 n) {
    if (!n) return;
    int si = access(*S, src, n, false, 1);
    int di = access(*S, dst, n, true, 1);
    Object* d = wobj(*S, di);
    Object* o = S->mem[si].o;
    u64 so = src - o->base, dof = dst - d->base;
    struct B { u8 k, v; E e; };
    static std::vector<B> buf;
    buf.resize(n);
    for (u64 i = 0; i < n; i++) buf[i].k = (u8)o->getByte(so + i, buf[i].v, buf[i].e);
    for (u64 i = 0; i < n; i++) {
      if (buf[i].k == 0) d->setConc(dof + i, buf[i].v);
      else if (buf[i].k == 1) d->setSym(dof + i, buf[i].e);
      else d->setUndef(dof + i);
    }
  }
#include "interp.inc"
};
#include "main.inc"
