// Parts of libstdc++ that live in its shared object, for the symbolic build only
// (the native replay links the real ones).
#pragma once
#include <unordered_map>
#include <memory>
#ifdef SYMIR
#include <cmath>
namespace std {
namespace __detail {
static const size_t symir_primes[] = {1, 2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (size_t p : symir_primes) if (p >= n) { _M_next_resize = p; return p; }
  return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkts, size_t elts, size_t ins) const {
  if (elts + ins > _M_next_resize) {
    size_t want = elts + ins > 11 || _M_next_resize ? elts + ins : 11;
    if (want >= bkts) return {true, _M_next_bkt(want + 1 > bkts * 2 ? want + 1 : bkts * 2)};
    _M_next_resize = bkts;
  }
  return {false, 0};
}
}  // namespace __detail
}  // namespace std
extern "C" char __libc_single_threaded = 1;
#endif
