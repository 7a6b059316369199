// C19: a failing operation leaves the cache consistent.
#include "hist.hpp"

struct Boom {};
static bool armed = false;
static bool fired = false;
// A step that may fail, once.
static void fallible() {
  if (armed && sym_bool("fails")) {
    armed = false;
    fired = true;
    throw Boom();
  }
}
// A key or value whose every construction, copy, move and assignment may fail.
struct F {
  int v;
  F(int x) : v(x) { fallible(); }
  F(const F& o) : v(o.v) { fallible(); }
  F(F&& o) : v(o.v) { fallible(); }
  F& operator=(const F& o) {
    fallible();
    v = o.v;
    return *this;
  }
  F& operator=(F&& o) {
    fallible();
    v = o.v;
    return *this;
  }
  operator int() const { return v; }
};
namespace std {
template <> struct hash<F> { size_t operator()(const F&) const noexcept { return 0; } };
}
struct HF { size_t operator()(const F&) const { return 0; } };
using UF = Sys<LRU::Cache<F, F, HF>, false>;
using TF = Sys<LRU::TimedCache<F, F, NS, HF>, true>;
struct HFBit { size_t operator()(const F& k) const noexcept { return (unsigned)k.v & 1; } };
using UFB = Sys<LRU::Cache<F, F, HFBit>, false>;

// Is r a state that a failed insertion (or lookup) of k may leave behind in place of b?
static bool compatible(const Model& r, const Model& b, int k, int v, bool inserting) {
  const int kb = b.find(k), kr = r.find(k);
  if (kr >= 0) {
    if (kb >= 0 ? !(r.e[kr].val == b.e[kb].val || (inserting && r.e[kr].val == v)) : !(inserting && r.e[kr].val == v)) return false;
  } else if (kb >= 0 && !inserting) {
    return false;
  }
  // The other entries are still there, in order; if k is new in a full cache, the first one may be gone.
  int i = 0;
  if (kr >= 0 && kb < 0 && (size_t)b.n >= b.cap) i = 1;
  for (int j = 0; j < r.n; j++) {
    if (j == kr) continue;
    if (i == kb) i++;
    if (i >= b.n || b.e[i].key != r.e[j].key || b.e[i].val != r.e[j].val) return false;
    i++;
  }
  if (i == kb) i++;
  return i == b.n;
}

enum What { W_INSERT, W_EMPLACE, W_EMPLACE_MOVE, W_PIECEWISE, W_CONTAINS, W_FIND, W_FINDC, W_LOOKUP, W_LOOKUPC, W_INDEX, W_INDEXC, W_ERASE, W_ERASE_IT, W_COUNT };

template <class C, class K>
static void operate(C& c, int op, K& k, K& v) {
  const C& cc = c;
  try {
    switch (op) {
      case W_INSERT: c.insert(k, v); break;
      case W_EMPLACE: c.emplace((int)k, (int)v); break;
      case W_EMPLACE_MOVE: c.emplace(std::move(k), std::move(v)); break;
      case W_PIECEWISE: c.emplace(std::piecewise_construct, std::forward_as_tuple((int)k), std::forward_as_tuple((int)v)); break;
      case W_CONTAINS: cc.contains(k); break;
      case W_FIND: c.find(k); break;
      case W_FINDC: cc.find(k); break;
      case W_LOOKUP: c.lookup(k); break;
      case W_LOOKUPC: cc.lookup(k); break;
      case W_INDEX: c[k]; break;
      case W_INDEXC: cc[k]; break;
      case W_ERASE: c.erase(k); break;
      case W_ERASE_IT: {
        // Dereferencing an ordered iterator is not one of the operations under test.
        const int64_t at = __sym_fail_at;
        __sym_fail_at = 0;
        auto it = c.ordered_begin();
        while (it != c.ordered_end() && (int)it->first != (int)k) ++it;
        __sym_fail_at = at;
        if (it != c.ordered_end()) c.erase(it);
        break;
      }
    }
  } catch (const LRU::Error::KeyNotFound&) {
  } catch (const LRU::Error::KeyExpired&) {
  }
}

template <class S>
static void consistent(S& s, Model& r) {
  const auto& cc = s.c;
  CHECK(cc.size() == (size_t)r.n, "size and ordered iteration disagree after a failed operation");
  CHECK(cc.size() <= cc.capacity(), "more entries than the capacity after a failed operation");
  CHECK(cc.capacity() == s.m.cap, "a failed operation changed the capacity");
  int u = 0;
  for (auto it = cc.begin(); it != cc.end(); ++it) {
    CHECK(++u <= r.n, "unordered iteration visits too many entries after a failed operation");
    int i = r.find(it->first);
    CHECK(i >= 0 && r.e[i].val == (int)it->second, "unordered and ordered iteration disagree after a failed operation");
  }
  CHECK(u == r.n, "unordered iteration visits too few entries after a failed operation");
}

// Takes r over as the model; the model of the entry with key k may be inexact in time.
template <class S>
static void resume(S& s, Model& r, int k, bool inserting, int steps) {
  r.timed = s.m.timed;
  r.ttl = s.m.ttl;
  for (int i = 0; i < r.n; i++) {
    int j = s.m.find(r.e[i].key);
    r.e[i].t = j >= 0 ? s.m.e[j].t : __sym_now_ns;
  }
  const bool was = s.m.find(k) >= 0;
  s.m = r;
  if (S::timed && inserting && was && r.find(k) >= 0) s.erase(k);
  s.verify();
  for (int i = 0; i < steps; i++) {
    s.tick();
    int x = sym_int("key");
    switch (choice(3, "operation")) {
      case 0: s.insert(x, 90 + i); break;
      case 1: s.lookup(O_CONTAINS, x); break;
      case 2: s.erase(x); break;
    }
  }
  s.verify();
  s.own.reset();
  __sym_leaks();
  reach("end");
}

// alloc: the failing step is a memory allocation, otherwise one of the key or value type
template <class S, class K>
static void fail_one(int before, bool alloc, int steps) {
  S s = S::any();
  s.prestate(before);
  if (before && sym_bool("use")) s.lookup(O_CONTAINS, sym_int("key"));
  s.tick();
  int op = choice(W_COUNT, "operation");
  int ik = sym_int("key");
  const int iv = 77;
  bool thrown = false;
  {
    K k(ik), v(iv);
    if (alloc) __sym_fail_at = 1 + choice(5, "failing_allocation");
    else armed = true;
    try {
      operate(s.c, op, k, v);
    } catch (const Boom&) {
      thrown = true;
    } catch (const std::bad_alloc&) {
      thrown = true;
    }
    if (alloc) fired = __sym_fail_at == 0;
    __sym_fail_at = 0;
    armed = false;
  }
  obs(fired);
  obs(thrown);
  if (!fired) __sym_exit();
  CHECK(thrown, "the exception does not reach the caller");
  const bool inserting = op <= W_PIECEWISE;
  Model r = read(static_cast<const typename S::Cache&>(s.c));
  observe(r);
  consistent(s, r);
  if (op == W_ERASE || op == W_ERASE_IT) {
    if (r.find(ik) < 0) s.m.erase(ik);
    CHECK(same(r, s.m), "a failed erasure changed other entries");
  } else {
    CHECK(compatible(r, s.m, ik, iv, inserting), "a failed operation changed other entries");
  }
  resume(s, r, ik, inserting, steps);
}
// any capacity, up to 2 (3) prior entries, a lookup, then any operation failing at any step of the key or value type, then 2 operations
ENTRY(type_u) { fail_one<UF, F>(TIER(2, 3), false, 2); }
ENTRY(type_timed) { fail_one<TF, F>(TIER(1, 2), false, 2); }
// two hash values
ENTRY(type_bit) { fail_one<UFB, F>(2, false, 1); }
// any operation failing at any memory allocation
ENTRY(alloc_u) { fail_one<U<>, int>(TIER(2, 3), true, 2); }
ENTRY(alloc_timed) { fail_one<T<>, int>(TIER(1, 2), true, TIER(1, 2)); }
ENTRY(alloc_bit) { fail_one<U<HBit>, int>(2, true, TIER(1, 2)); }
// failures when the hash table has to grow
ENTRY(alloc_grow) {
  U<HLow> s(20);
  for (int i = 0; i < 8; i++) s.insert(i, i);
  int n = choice(9, "more");
  for (int i = 0; i < n; i++) s.insert(8 + i, i);
  int k = sym_int("key");
  __sym_fail_at = 1 + choice(4, "failing_allocation");
  bool thrown = false;
  try { s.c.insert(k, 77); } catch (const std::bad_alloc&) { thrown = true; }
  fired = __sym_fail_at == 0;
  __sym_fail_at = 0;
  if (!fired) __sym_exit();
  CHECK(thrown, "the exception does not reach the caller");
  Model r = read(static_cast<const U<HLow>::Cache&>(s.c));
  consistent(s, r);
  CHECK(compatible(r, s.m, k, 77, true), "a failed operation changed other entries");
  resume(s, r, k, true, 1);
}

// ---------------------------------------------------------------- insertion of ranges
template <class S, class K>
static void fail_range(int before, bool alloc, int n) {
  S s = S::any();
  s.prestate(before);
  s.tick();
  std::vector<std::pair<K, K>> src;
  src.reserve(n);
  int keys[3];
  for (int i = 0; i < n; i++) {
    keys[i] = sym_int("key");
    src.emplace_back(keys[i], 70 + i);
  }
  const int form = choice(3, "form");
  if (alloc) __sym_fail_at = 1 + choice(8, "failing_allocation");
  else armed = true;
  bool thrown = false;
  try {
    if (form == 0) s.c.insert(src);
    else if (form == 1) s.c.insert(std::move(src));
    else s.c.insert(src.begin(), src.end());
  } catch (const Boom&) {
    thrown = true;
  } catch (const std::bad_alloc&) {
    thrown = true;
  }
  if (alloc) fired = __sym_fail_at == 0;
  __sym_fail_at = 0;
  armed = false;
  if (!fired) __sym_exit();
  CHECK(thrown, "the exception does not reach the caller");
  Model r = read(static_cast<const typename S::Cache&>(s.c));
  observe(r);
  consistent(s, r);
  // the elements before the failing one have been inserted
  bool ok = false;
  int j = 0;
  for (; j < n; j++) {
    if (compatible(r, s.m, keys[j], 70 + j, true)) { ok = true; break; }
    s.m.insert(keys[j], 70 + j);
  }
  CHECK(ok, "a failed insertion of a range changed other entries");
  if (S::timed) { reach("end"); return; }
  resume(s, r, keys[j], true, 1);
}
// ranges of 2 (3) elements
ENTRY(range_type_u) { fail_range<UF, F>(2, false, TIER(2, 3)); }
ENTRY(range_alloc_u) { fail_range<U<>, int>(TIER(1, 2), true, TIER(2, 3)); }
ENTRY(range_type_timed) { fail_range<TF, F>(1, false, 2); }

// ---------------------------------------------------------------- callbacks
template <class S>
static void fail_callback(int before, int steps) {
  S s = S::any();
  s.prestate(before);
  if (sym_bool("use")) s.lookup(O_CONTAINS, sym_int("key"));
  s.tick();
  auto st = std::make_shared<LRU::Statistics<int>>();
  if (sym_bool("monitored")) s.c.monitor(st);
  s.c.hit_callback([](const int&, const int&) { fallible(); });
  s.c.miss_callback([](const int&) { fallible(); });
  s.c.access_callback([](const int&, bool) { fallible(); });
  if (sym_bool("second")) s.c.access_callback([](const int&, bool) { fallible(); });
  int op = W_CONTAINS + choice(W_INDEXC - W_CONTAINS + 1, "operation");
  int k = sym_int("key");
  int v = 0;
  armed = true;
  bool thrown = false;
  try { operate(s.c, op, k, v); } catch (const Boom&) { thrown = true; }
  armed = false;
  obs(fired);
  if (!fired) __sym_exit();
  CHECK(thrown, "the exception of a callback does not reach the caller");
  Model r = read(static_cast<const typename S::Cache&>(s.c));
  observe(r);
  consistent(s, r);
  CHECK(compatible(r, s.m, k, 0, false), "a failed lookup changed other entries");
  resume(s, r, k, false, steps);
}
// any capacity, up to 2 (3) prior entries, a lookup, then any lookup with a failing callback, then 2 operations
ENTRY(callback_u) { fail_callback<U<>>(TIER(2, 3), 2); }
ENTRY(callback_timed) { fail_callback<T<>>(TIER(1, 2), TIER(1, 2)); }
