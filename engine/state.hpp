// Symbolic machine state: memory objects (chunked copy-on-write), frames, PC.
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "expr.hpp"
#include "solver.hpp"

struct Chunk {
  int rc = 1;
  u64 sym = 0, undef = 0;
  u8 b[64];
  E* s = nullptr;
  ~Chunk() { delete[] s; }
  Chunk* clone() const {
    Chunk* c = new Chunk();
    c->sym = sym;
    c->undef = undef;
    memcpy(c->b, b, 64);
    if (sym) {
      c->s = new E[64];
      memcpy(c->s, s, sizeof(E) * 64);
    }
    return c;
  }
};
enum ObjKind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_FUNC, K_OPAQUE, K_EXC };
struct Object {
  int rc = 1;
  u64 base, size;
  ObjKind kind;
  bool ro = false, zero = false;
  u8 form = 0;  // heap: 0 malloc, 1 new, 2 new[]
  u64 align = 16;
  u32 ord = 0;
  const void* who = nullptr;
  std::vector<Chunk*> ch;
  Object(u64 b, u64 s, ObjKind k) : base(b), size(s), kind(k), ch((s + 63) / 64, nullptr) {}
  Object(const Object& o) = default;
  ~Object() {
    for (Chunk* c : ch) if (c && --c->rc == 0) delete c;
  }
  Object* clone() const {
    Object* o = new Object(*this);
    o->rc = 1;
    for (Chunk* c : o->ch) if (c) c->rc++;
    return o;
  }
  Chunk* wchunk(u64 i) {
    Chunk*& c = ch[i];
    if (!c) {
      c = new Chunk();
      memset(c->b, 0, 64);
      c->undef = zero ? 0 : ~(u64)0;
    } else if (c->rc > 1) {
      Chunk* n = c->clone();
      c->rc--;
      c = n;
    }
    return c;
  }
  // byte accessors. kind: 0 concrete, 1 symbolic, 2 undefined
  int getByte(u64 off, u8& v, E& e) const {
    const Chunk* c = ch[off >> 6];
    if (!c) { v = 0; return zero ? 0 : 2; }
    unsigned i = off & 63;
    if ((c->sym >> i) & 1) { e = c->s[i]; return 1; }
    if ((c->undef >> i) & 1) return 2;
    v = c->b[i];
    return 0;
  }
  void setConc(u64 off, u8 v) {
    Chunk* c = wchunk(off >> 6);
    unsigned i = off & 63;
    c->b[i] = v;
    c->sym &= ~((u64)1 << i);
    c->undef &= ~((u64)1 << i);
  }
  void setSym(u64 off, E e) {
    if (e->isConst()) { setConc(off, (u8)e->cv()); return; }
    Chunk* c = wchunk(off >> 6);
    unsigned i = off & 63;
    if (!c->s) c->s = new E[64];
    c->s[i] = e;
    c->sym |= (u64)1 << i;
    c->undef &= ~((u64)1 << i);
  }
  void setUndef(u64 off) {
    Chunk* c = wchunk(off >> 6);
    unsigned i = off & 63;
    c->sym &= ~((u64)1 << i);
    c->undef |= (u64)1 << i;
  }
};

struct ObjRef {
  Object* o;
  explicit ObjRef(Object* x) : o(x) {}
  ObjRef(const ObjRef& r) : o(r.o) { o->rc++; }
  ObjRef(ObjRef&& r) noexcept : o(r.o) { r.o = nullptr; }
  ObjRef& operator=(ObjRef r) noexcept { std::swap(o, r.o); return *this; }
  ~ObjRef() { if (o && --o->rc == 0) delete o; }
};

struct DFunc;
struct Frame {
  DFunc* f;
  u32 pc = 0;
  std::vector<E> regs;
  std::vector<u64> allocas;
  int retDst = -1;       // register of the caller that receives the result
  bool isInvoke = false; // caller instruction is an invoke
  u8 special = 0;        // 1: destructor run by __cxa_end_catch, 2: static ctor
};

struct Exc {
  u64 obj;
  u64 type;   // typeinfo address
  u64 dtor;   // destructor function address or 0
};
struct Obligation {
  E cond;
  const char* msg;
  std::string where;
};
struct FarStore {  // a store to memory at a symbolic address, in time order
  E addr, val;
  u32 bytes;
};
struct State {
  u64 id = 0;
  u64 farLo = 0, farHi = 0;  // addresses of memory regions whose place is symbolic
  std::vector<FarStore> far;
  std::vector<ObjRef> mem;  // sorted by base
  u64 nextAddr = 0;
  std::vector<Frame> stack;
  std::vector<E> pc;
  ModelP model;
  OrderP ord;
  std::vector<E> inputs;
  std::vector<u8> inputKinds;
  std::vector<E> observed;
  long newFail = 0;  // >0: that many heap allocations from now, one fails
  std::vector<Obligation> obl;
  std::vector<Exc> inflight;  // exceptions thrown, not yet begin_catch'ed
  std::vector<std::pair<Exc, int>> caught;
  u64 uninitCount = 0, symCount = 0, heapOrd = 0;
  u64 steps = 0;
  u32 depth = 0;
  std::vector<std::pair<u64, u64>> freed;
};
