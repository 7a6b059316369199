// Shared parts of all harnesses: inputs, hash functions, the reference model and
// the history driver.  Every harness is executed symbolically (engine/) and, for
// replays, natively.
#pragma once
#include <lru/lru.hpp>
#include "sym.hpp"

#ifdef THOROUGH
#define TIER(q, t) (t)
#else
#define TIER(q, t) (q)
#endif

#define ENTRY(name) extern "C" void name()
#define ENTRY_T(name) extern "C" void name()
#define ENTRY_Q(name) extern "C" void name()
#define CHECK(c, m) __sym_assert((c), m)
#define ASSUME(c) __sym_assume(c)

static inline int sym_int(const char* n = "key") { return (int)(uint32_t)__sym_var(32, n); }
static inline size_t sym_size(const char* n = "size") { return (size_t)__sym_var(64, n); }
static inline int64_t sym_i64(const char* n = "time") { return (int64_t)__sym_var(64, n); }
static inline bool sym_bool(const char* n = "flag") { return __sym_choice(2, n) != 0; }
static inline uint32_t choice(uint32_t n, const char* nm = "choice") { return __sym_choice(n, nm); }
static inline void obs(uint64_t v) { __sym_observe(v); }
static inline void reach(const char* m) { __sym_reach(m); }

// Hash functions over int keys.  HConst sends every key to one bucket (and its
// hash codes are cached in the nodes), HBit uses one bit, HLow
// three (hash codes not cached).
struct HConst { size_t operator()(const int&) const { return 0; } };
struct HBit { size_t operator()(const int& k) const noexcept { return (unsigned)k & 1; } };
struct HLow { size_t operator()(const int& k) const noexcept { return (unsigned)k & 7; } };

using NS = std::chrono::nanoseconds;

// ---------------------------------------------------------------- properties
// A harness owns one or more groups of assertions.  A disagreement with the model
// in a group it does not own ends the path: it is another property's business.
enum Group : unsigned {
  G_SIZE = 1u << 0,    // size, is_empty, is_full, space_left, capacity, bounds
  G_SET = 1u << 1,     // which keys are stored
  G_ORDER = 1u << 2,   // recency order
  G_VALUE = 1u << 3,   // values
  G_LOOKUP = 1u << 4,  // results of lookups
  G_INSERT = 1u << 5,  // results of insertions
  G_ERASE = 1u << 6,   // results of erasures
  G_STATS = 1u << 7,
  G_CALL = 1u << 8,    // callbacks
  G_TIME = 1u << 9,    // expiry queries
  G_ITER = 1u << 10,
  G_ALL = ~0u
};
#ifndef OWN
#define OWN G_ALL
#endif
template <unsigned G>
static inline void chk(bool c, const char* m) {
  if (G & (OWN)) __sym_assert(c, m);
  else __sym_assume(c);
}

// The same for results nothing depends on: what another property is about is ignored.
template <unsigned G>
static inline void chk_result(bool c, const char* m) {
  if (G & (OWN)) __sym_assert(c, m);
}
// Several assertions about one state: all owned ones are made before a disagreement
// that is not owned ends the path.
struct Together {
  bool rest = true;
  template <unsigned G>
  void chk(bool c, const char* m) {
    if (G & (OWN)) __sym_assert(c, m);
    else rest = rest & c;
  }
  ~Together() { __sym_assume(rest); }
};

// ---------------------------------------------------------------- the model
#ifndef MODEL_MAX
#define MODEL_MAX 40
#endif
// Entries from least to most recently used.
struct Model {
  static constexpr int MAX = MODEL_MAX;
  struct E {
    int key, val;
    int64_t t;
  };
  int n = 0;
  size_t cap = 0;
  bool timed = false;
  int64_t ttl = 0;
  uint32_t mask = ~0u;  // two keys are the same if they agree in these bits
  E e[MAX];
  bool eq(int a, int b) const { return (((uint32_t)a ^ (uint32_t)b) & mask) == 0; }
  int find(int k) const {
    for (int i = 0; i < n; i++) if (eq(e[i].key, k)) return i;
    return -1;
  }
  bool expired(int i) const { return timed && __sym_now_ns - e[i].t > ttl; }
  void remove(int i) {
    for (int j = i; j + 1 < n; j++) e[j] = e[j + 1];
    n--;
  }
  void touch(int i) {
    E x = e[i];
    remove(i);
    e[n++] = x;
  }
  void limit(size_t m) { while ((size_t)n > m) remove(0); }
  // true if the key is new and stored
  bool insert(int k, int v) {
    if (cap == 0) return false;
    int i = find(k);
    if (i >= 0) {
      k = e[i].key;  // the stored key stays
      remove(i);
    }
    e[n++] = E{k, v, __sym_now_ns};
    limit(cap);
    return i < 0;
  }
  // index of a served entry after the lookup (the last one), or -1
  int lookup(int k) {
    int i = find(k);
    if (i < 0 || expired(i)) return -1;
    touch(i);
    return n - 1;
  }
  bool erase(int k) {
    int i = find(k);
    if (i < 0) return false;
    remove(i);
    return true;
  }
  int clear_expired() {
    int c = 0;
    for (int i = 0; i < n;) {
      if (expired(i)) { remove(i); c++; }
      else i++;
    }
    return c;
  }
  bool all_expired() const {
    for (int i = 0; i < n; i++) if (!expired(i)) return false;
    return true;
  }
};
// The same entries, values and order.
static inline bool same(const Model& a, const Model& b) {
  if (a.n != b.n) return false;
  for (int i = 0; i < a.n; i++) if (a.e[i].key != b.e[i].key || a.e[i].val != b.e[i].val) return false;
  return true;
}

// ---------------------------------------------------------------- reading a cache
// The contents of a cache in recency order, read through const ordered iterators
// (which do not touch the order).  max bounds the walk.
template <class C>
static Model read(const C& c) {
  Model r;
  r.cap = c.capacity();
  for (auto it = c.ordered_cbegin(); it != c.ordered_cend(); ++it) {
    if (r.n >= Model::MAX) __sym_fail("iteration does not reach the end");
    r.e[r.n].key = it->first;
    r.e[r.n].val = it->second;
    r.n++;
  }
  return r;
}
static inline void observe(const Model& r) {
  obs(r.n);
  for (int i = 0; i < r.n; i++) { obs((uint32_t)r.e[i].key); obs((uint32_t)r.e[i].val); }
}
