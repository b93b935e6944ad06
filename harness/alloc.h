// A stateful allocator: each pool owns its blocks and gives them back when the
// last allocator object that refers to it goes away, so a node that outlives
// its pool becomes a use after free. Counts blocks per element type; can fail
// at a chosen allocation.
#pragma once
#include "symh.h"
#include <new>
#include <cstddef>
inline long g_fail_in = 0;      // >0: the g_fail_in-th allocation from now fails
inline size_t g_allocs = 0;     // allocations granted so far
inline long g_kind_live[4];     // live blocks per element type, in order of first use
inline int g_kinds = 0;
template <class T> inline int g_kind_of = -1;
struct Blk;
struct Pool {
  long refs = 0, live = 0;
  Blk* first = nullptr;
};
struct Blk {
  Pool* pool;
  Blk *prev, *next;
  size_t n;
  int kind;
};
inline void pool_ref(Pool* p) { p->refs++; }
inline void pool_unref(Pool* p);
constexpr size_t BLK_HDR = 64;
static_assert(sizeof(Blk) <= BLK_HDR);
inline void pool_unref(Pool* p) {
  if (--p->refs) return;
  CHECK_MSG(p->live == 0, "a pool goes away while nodes taken from it are in use");
  while (p->first) {
    Blk* b = p->first;
    p->first = b->next;
    ::operator delete(b, std::align_val_t(64));
  }
  delete p;
}
template <class T> struct PA {
  using value_type = T;
  Pool* p;
  PA() : p(new Pool) { pool_ref(p); }
  explicit PA(Pool* q) : p(q) { pool_ref(p); }
  PA(const PA& o) : p(o.p) { pool_ref(p); }
  template <class U> PA(const PA<U>& o) : p(o.p) { pool_ref(p); }
  PA& operator=(const PA& o) { Pool* q = o.p; pool_ref(q); pool_unref(p); p = q; return *this; }
  ~PA() { pool_unref(p); }
  T* allocate(size_t n) {
    if (g_fail_in > 0 && --g_fail_in == 0) throw std::bad_alloc();
    char* m = static_cast<char*>(::operator new(BLK_HDR + n * sizeof(T), std::align_val_t(64)));
    if (g_kind_of<T> < 0) g_kind_of<T> = g_kinds++;
    Blk* b = new (m) Blk{p, nullptr, p->first, n, g_kind_of<T>};
    if (b->next) b->next->prev = b;
    p->first = b;
    p->live++;
    g_allocs++;
    g_kind_live[b->kind]++;
    return reinterpret_cast<T*>(m + BLK_HDR);
  }
  void deallocate(T* q, size_t n) {
    Blk* b = reinterpret_cast<Blk*>(reinterpret_cast<char*>(q) - BLK_HDR);
    CHECK_MSG(b->pool == p, "node returned to a different pool");
    CHECK_MSG(b->n == n, "node returned with a different count");
    CHECK_MSG(b->kind == g_kind_of<T>, "node returned as a different type");
    (b->prev ? b->prev->next : b->pool->first) = b->next;
    if (b->next) b->next->prev = b->prev;
    b->pool->live--;
    g_kind_live[b->kind]--;
    ::operator delete(b, std::align_val_t(64));
  }
  template <class U> bool operator==(const PA<U>& o) const { return p == o.p; }
};
