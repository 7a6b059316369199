#define OWN (G_ITER)
#define MODEL_MAX 200
#include "long.hpp"

template <class S>
static bool same_times(const S& s, const S& t) {
  if (!S::timed) return true;
  for (int i = 0; i < s.m.n; i++) if (s.m.e[i].t != t.m.e[i].t) return false;
  return true;
}
// Equal according to the models.
template <class S>
static bool want(const S& s, const S& t) { return same(s.m, t.m) && same_times(s, t); }

template <class S>
static void compare(S& s, S& t) {
  const auto& a = s.c;
  const auto& b = t.c;
  bool w = want(s, t);
  obs(w);
  bool e = a == b;
  CHECK(e == w, e ? "caches with different contents compare equal" : "caches with the same contents compare different");
  CHECK((b == a) == w, "equality is not symmetric");
  CHECK((a != b) == !w && (b != a) == !w, "!= is not the negation of ==");
  CHECK(a == a && !(a != a) && b == b, "a cache does not equal itself");
  CHECK((s.c == t.c) == w && (s.c != t.c) == !w, "equality of non-const caches differs");
  if (w) reach("equal");
  else reach("different");
  s.verify();
  t.verify();
}
template <class S, uint32_t Ops>
static void histories(int n, int k) {
  __sym_min_buckets = 2;
  S s = S::any();
  s.prestate(n);
  __sym_min_buckets = choice(2, "buckets") ? 8 : 2;
  S t = S::any();
  t.prestate(n);
  for (int i = 0; i < k; i++) {
    if (sym_bool("on_second")) t.template step<Ops>();
    else s.template step<Ops>();
  }
  compare(s, t);
}
// two caches with any capacities and up to 2 (3) entries each, 1 operation on either, compared; first tables of 2 or 8 buckets
ENTRY(histories_u) { histories<U<>, LOOKUPS3 | O_INSERT | O_ERASE | O_CAPACITY | O_ASSIGN>(TIER(2, 3), 1); }
// two hash values
ENTRY(histories_bit) { histories<U<HBit>, O_CONTAINS | O_INSERT>(2, TIER(0, 1)); }
// 3 (4) entries each, no operation
ENTRY(contents) { histories<U<>, O_CONTAINS>(TIER(3, 4), 0); }
// timed: the insertion times count too (here both caches are filled with the clock going on)
ENTRY(histories_timed) { histories<T<>, O_CONTAINS | O_INSERT>(TIER(1, 2), 1); }

// The same entries inserted at (perhaps) the same times into two timed caches.
template <class S>
static void twins(int n) {
  S s = S::any(), t = S::any();
  int k = choice(n + 1, "entries");
  for (int i = 0; i < k; i++) {
    s.tick();
    int key = sym_int("key"), val = sym_int("value"), val2 = sym_int("other_value");
    s.insert(key, val);
    if (sym_bool("time_between")) s.tick();
    t.insert(key, val2);
  }
  if (sym_bool("lookup")) s.template step<O_CONTAINS>();
  compare(s, t);
}
// up to 2 (3) insertions in lockstep with time perhaps passing between, values perhaps different
ENTRY(twins_timed) { twins<T<>>(TIER(2, 3)); }
ENTRY(twins_u) { twins<U<>>(TIER(3, 4)); }

// The same contents reached in different ways: always equal.
ENTRY(different_ways) {
  __sym_min_buckets = 2;
  U<HLow> s(sym_size("capacity"));
  __sym_min_buckets = 8;
  U<HLow> t(sym_size("capacity"));
  int k[3];
  for (int i = 0; i < 3; i++) {
    k[i] = sym_int("key");
    for (int j = 0; j < i; j++) ASSUME(k[i] != k[j]);
  }
  ASSUME(s.m.cap >= 3 && t.m.cap >= 3);
  for (int i = 0; i < 3; i++) s.insert(k[i], i);
  // the other one in another order, with a detour
  t.insert(k[2], 2);
  if (sym_bool("erased_between")) { t.insert(k[1], 5); t.erase(k[1]); }
  t.insert(k[0], sym_int("value"));
  t.insert(k[1], 1);
  if (sym_bool("use")) { t.lookup(O_CONTAINS, k[2]); }
  compare(s, t);
}
// 9 (20) equal entries, then an arbitrary update and an arbitrary lookup in one
ENTRY(large) {
  const int n = TIER(9, 20);
  __sym_min_buckets = 2;
  U<HLow> s(n + 1);
  for (int i = 0; i < n; i++) s.insert(i * 3, i);
  __sym_min_buckets = 16;
  U<HLow> t(n);
  for (int i = n - 1; i >= 0; i--) t.insert(i * 3, i);
  for (int i = 0; i < n; i++) t.lookup(O_CONTAINS, i * 3);
  compare(s, t);
  int k = sym_int("key");
  t.lookup(O_CONTAINS, k);
  if (sym_bool("update")) { int l = sym_int("key"); s.insert(l, sym_int("value")); }
  compare(s, t);
  reach("end");
}
// a cache equals its copy, also while only one of them has a last accessed key
ENTRY(copies) {
  U<> s = U<>::any();
  s.prestate(2);
  s.step<LOOKUPS3 | O_INSERT>();
  U<> t(new U<>::Cache(s.c), s.m);
  compare(s, t);
  if (sym_bool("lookup")) t.step<O_CONTAINS>();
  else t.step<O_INSERT | O_ERASE | O_CAPACITY>();
  compare(s, t);
}
// The same keys in any two orders, the values differing in at most one place.
template <class S>
static void permutations(int n) {
  S s(n + choice(2, "more_capacity"), 1000), t(n, 1000);
  const int differs = choice(n + 1, "differs");
  const int other = sym_int("value");
  for (int i = 0; i < n; i++) s.insert(i * 5, i);
  uint32_t left = (1u << n) - 1;
  for (int i = 0; i < n; i++) {
    int j = choice(n - i, "next"), at = 0;
    for (;; at++)
      if (left >> at & 1 && j-- == 0) break;
    left &= ~(1u << at);
    t.insert(at * 5, at == differs ? other : at);
  }
  if (sym_bool("use")) s.lookup(O_CONTAINS, 5 * (int)choice(n, "used"));
  compare(s, t);
}
// 4 (5) entries with concrete keys, all pairs of recency orders (up to renaming), one use, one value arbitrary
ENTRY(permutations_u) { permutations<U<HLow>>(TIER(4, 5)); }
// timed: the same insertion times
ENTRY(permutations_timed) { permutations<T<>>(TIER(4, 4)); }
// 5 (6) entries with arbitrary keys, inserted in lockstep, then up to two uses of either
ENTRY(long_orders) {
  const int n = TIER(5, 6);
  U<HLow> s(n), t(n + 1);
  for (int i = 0; i < n; i++) {
    s.insert(i * 3, i);
    t.insert(i * 3, i);
  }
  for (int i = 0; i < 2; i++) {
    int k = sym_int("key");
    if (sym_bool("on_second")) t.lookup(O_CONTAINS, k);
    else s.lookup(O_CONTAINS, k);
  }
  compare(s, t);
  int k = sym_int("key");
  s.lookup(O_CONTAINS, k);
  t.lookup(O_CONTAINS, k);
  compare(s, t);
}

// ---------------------------------------------------------------- long histories

template <class S>
static void after_many() {
  const Size z = any_size();
  const Sequence seq = any_sequence();
  const int64_t start = __sym_now_ns;
  __sym_min_buckets = 2;
  S s(z.cap, z.ttl);
  Sequence next = seq;
  busy(s, next, TIER(300, 1000), z.keys);
  const int64_t end = __sym_now_ns;
  // the same once more, in a table of another size, at the same times
  __sym_now_ns = start;
  __sym_min_buckets = choice(2, "buckets") ? 512 : 2;
  S t(z.cap, z.ttl);
  Sequence again = seq;
  busy(t, again, TIER(300, 1000), z.keys);
  CHECK(__sym_now_ns == end, "harness: the clocks differ");
  S& x = sym_bool("on_second") ? t : s;
  x.tick();
  x.perform(1u << nth_bit(O_CONTAINS | O_INSERT | O_ERASE | O_SHRINK | O_CAPACITY, choice(5, "operation")));
  compare(s, t);
}
// the same 300 (1000) fixed operations in two caches of capacity 20 or 150, one arbitrary operation on either, compared
ENTRY(after_many_u) { after_many<U<HLow>>(); }
ENTRY(after_many_timed) { after_many<T<HLow>>(); }
