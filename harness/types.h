// Key and value types used by the harnesses, with symbolic constructors.
#pragma once
#include "symh.h"
#include <functional>
#include <utility>

// 16-byte key ordered lexicographically
struct K16 {
  uint64_t hi, lo;
  bool operator<(const K16& o) const { return hi < o.hi || (hi == o.hi && lo < o.lo); }
  bool operator>(const K16& o) const { return o < *this; }
  bool operator==(const K16& o) const { return hi == o.hi && lo == o.lo; }
};
// 32-byte trivially copyable value, all words derived from one symbolic word
struct V32 {
  uint64_t w[4];
  bool operator==(const V32& o) const { return w[0] == o.w[0] && w[1] == o.w[1] && w[2] == o.w[2] && w[3] == o.w[3]; }
};
// key with a payload the order does not look at
struct KTag {
  int16_t ord;
  int16_t tag;
  bool operator==(const KTag& o) const { return ord == o.ord && tag == o.tag; }
};
struct OrdLess { bool operator()(const KTag& a, const KTag& b) const { return a.ord < b.ord; } };
// comparators on plain integers with equivalence classes coarser than ==
struct Mod16Less { bool operator()(int32_t a, int32_t b) const { return (a & 15) < (b & 15); } };
struct HalfLess { bool operator()(int32_t a, int32_t b) const { return (a >> 1) < (b >> 1); } };
// stateless but non-std::less reverse order
struct RevLess { template <class T> bool operator()(const T& a, const T& b) const { return b < a; } };

template <class T> struct Mk { static T make() { return symh::sym<T>(); } };
template <> struct Mk<float> { static float make() { float f = symh::sym<float>(); symh::assume(f == f); return f; } };
template <> struct Mk<double> { static double make() { double f = symh::sym<double>(); symh::assume(f == f); return f; } };
template <> struct Mk<K16> { static K16 make() { K16 k; k.hi = symh::sym<uint64_t>(); k.lo = symh::sym<uint64_t>(); return k; } };
template <> struct Mk<V32> { static V32 make() { V32 v; uint64_t a = symh::sym<uint64_t>(); v.w[0] = a; v.w[1] = ~a; v.w[2] = a + 1; v.w[3] = a ^ 0x5555; return v; } };
template <> struct Mk<KTag> { static KTag make() { KTag k; k.ord = symh::sym<int16_t>(); k.tag = symh::sym<int16_t>(); return k; } };

// bitwise identity (== would identify +0 and -0)
template <class T> inline bool same_bits(const T& a, const T& b) {
  if constexpr (std::is_floating_point_v<T>) {
    using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
    U x, y;
    std::memcpy(&x, &a, sizeof(T));
    std::memcpy(&y, &b, sizeof(T));
    return x == y;
  } else
    return a == b;
}
template <class T> inline void obs(const T& v) {
  if constexpr (std::is_arithmetic_v<T>) symh::observe(v);
}
inline void obs(const K16& v) { symh::observe(v.hi); symh::observe(v.lo); }
inline void obs(const V32& v) { symh::observe(v.w[0]); symh::observe(v.w[3]); }
inline void obs(const KTag& v) { symh::observe(v.ord); symh::observe(v.tag); }
