// Interface between harnesses and the symbolic executor (or, for replay, the
// native runtime in native_rt.cpp). Everything a harness needs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
extern "C" {
uint64_t symh_sym(uint64_t bits);                  // arbitrary value of that width
uint64_t symh_choice(uint64_t n);                  // arbitrary value in [0,n), one path each
void symh_assume(uint64_t c);                      // restrict to c
void symh_assert(uint64_t c, const char* what);    // obligation
void symh_cover(const char* what);                 // reachability witness
void symh_observe(uint64_t v);                     // logged for comparison with the native build
uint64_t symh_param(const char* name, uint64_t d); // job parameter
uint64_t symh_concrete(uint64_t v);                // case split until v is a constant
uint64_t symh_new_fail(uint64_t n);                // the n-th heap allocation from now fails (0: none); returns what was left
uint64_t symh_heap_live();                         // live heap blocks
void* symh_region(uint64_t len, uint64_t align);   // a mapped, zeroed region
void symh_region_free(void* p);
void symh_far(uint64_t lo, uint64_t hi);           // memory in [lo,hi) exists and may be used at symbolic addresses
void symh_stop();                                  // end of path, everything checked
}
namespace symh {
template <class T> inline T sym() {
  static_assert(sizeof(T) <= 8);
  uint64_t v = symh_sym(sizeof(T) * 8);
  T r;
  std::memcpy(&r, &v, sizeof(T));
  return r;
}
template <> inline bool sym<bool>() { return symh_sym(1) & 1; }
inline size_t choice(size_t n) { return symh_choice(n); }
// integer in [lo, hi], one path per value
inline size_t range(size_t lo, size_t hi) { return lo + symh_choice(hi - lo + 1); }
inline size_t param(const char* n, size_t d) { return symh_param(n, d); }
inline void assume(bool c) { symh_assume(c); }
template <class T> inline void observe(T v) {
  uint64_t u = 0;
  std::memcpy(&u, &v, sizeof(T) <= 8 ? sizeof(T) : 8);
  symh_observe(u);
}
}  // namespace symh
#define CHECK(c) symh_assert(static_cast<bool>(c), #c)
#define CHECK_MSG(c, m) symh_assert(static_cast<bool>(c), m)
#define COVER(m) symh_cover(m)
