// The rehash policy used by both the symbolic runtime and the native replay: a
// valid policy with the thresholds of libstdc++ but a small configurable first
// size, so that a few insertions reach a rehash.
#include "sym.hpp"
extern "C" {
int64_t __sym_now_ns = 1000000000;
int64_t __sym_sys_ns = 1000000000;
int64_t __sym_tick_ns = 0;
int64_t __sym_fail_at = 0;
int64_t __sym_allocs = 0;
uint32_t __sym_min_buckets = 2;
}
// Bucket counts are powers of two (the standard leaves the policy open), so that
// the remainder of a symbolic hash is a bit mask.
static size_t sym_next_count(size_t n) {
  size_t p = 2;
  while (p < n) p *= 2;
  return p;
}
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  if (n == 0) return 1;
  size_t p = sym_next_count(n);
  _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor);
  return p;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    size_t want = n_elt + n_ins;
    if (_M_next_resize == 0 && want < __sym_min_buckets) want = __sym_min_buckets;
    size_t min_bkts = (size_t)((double)want / (double)_M_max_load_factor);
    if (min_bkts >= n_bkt) {
      size_t a = min_bkts + 1, b = n_bkt + 1;
      return {true, _M_next_bkt(a > b ? a : b)};
    }
    _M_next_resize = (size_t)((double)n_bkt * (double)_M_max_load_factor);
    return {false, 0};
  }
  return {false, 0};
}
}}
