// An element type that owns a heap block and checks its own life cycle.
#pragma once
#include "symh.h"
#include <utility>
inline long g_objs = 0;    // constructed minus destroyed
inline long g_values = 0;  // constructions that are given or default a value
struct Box {
  const Box* self;
  int32_t* p;  // null: default constructed or moved from
  Box() : self(this), p(nullptr) { g_objs++; g_values++; }
  explicit Box(int32_t v) : self(this), p(new int32_t(v)) { g_objs++; g_values++; }
  Box(int32_t a, int32_t b) : self(this), p(new int32_t(a ^ b)) { g_objs++; g_values++; }
  Box(const Box& o) : self(this), p(nullptr) { o.live(); if (o.p) p = new int32_t(*o.p); g_objs++; }
  Box(Box&& o) noexcept : self(this), p(o.p) { o.live(); o.p = nullptr; g_objs++; }
  Box& operator=(const Box& o) {
    live();
    o.live();
    if (this != &o) { delete p; p = o.p ? new int32_t(*o.p) : nullptr; }
    return *this;
  }
  Box& operator=(Box&& o) noexcept {
    live();
    o.live();
    if (this != &o) { delete p; p = o.p; o.p = nullptr; }
    return *this;
  }
  ~Box() { live(); delete p; self = nullptr; g_objs--; }
  void live() const { CHECK_MSG(self == this, "object used outside its lifetime"); }
  int32_t get() const { live(); CHECK_MSG(p != nullptr, "value lost (moved away)"); return p ? *p : 0; }
  bool has() const { live(); return p != nullptr; }
  bool operator==(const Box& o) const { return get() == o.get(); }
  bool operator<(const Box& o) const { return get() < o.get(); }
  bool operator>(const Box& o) const { return get() > o.get(); }
};
