// C24: accessing the last accessed key again needs no hash lookup.
#define OWN 0u
#define MODEL_MAX 200
#include "long.hpp"

static int calls = 0;              // calls of the hash function
static int calls_for = 0;          // of these, for the key asked for
static const int* asked = nullptr;
struct HCount {
  size_t operator()(const int& k) const {
    calls++;
    if (&k == asked) calls_for++;
    return (unsigned)k & 1;
  }
};
// the same, but hash codes are not stored in the nodes
struct HCountFast {
  size_t operator()(const int& k) const noexcept {
    calls++;
    if (&k == asked) calls_for++;
    return 0;
  }
};
template <class C>
static void access(C& c, uint32_t kind, const int& k) {
  const C& cc = c;
  try {
    switch (kind) {
      case 0: c.contains(k); break;
      case 1: c.lookup(k); break;
      case 2: cc.lookup(k); break;
      case 3: c[k]; break;
      case 4: cc[k]; break;
      case 5: cc.contains(k); break;
      case 6: c.find(k); break;
      case 7: cc.find(k); break;
    }
  } catch (const LRU::Error::KeyNotFound&) {
  } catch (const LRU::Error::KeyExpired&) {
  }
}
template <class S, uint32_t Ops>
static void shortcut(int n, int steps) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < steps; i++) s.template step<Ops>();
  if (TIER(false, steps == 0) && sym_bool("monitored")) s.c.monitor(sym_int("monitored_key"));
  s.tick();
  const int k = sym_int("key");
  const int first = choice(12, "first");
  // made successful by the model, so that the path ends if it is not
  if (first < 8) {
    const int i = s.expect_lookup(k);
    if (i < 0) ASSUME(false);
    calls_for = 0;
    asked = &k;
    access(s.c, first, k);
    asked = nullptr;
    CHECK(calls_for <= 1, "a lookup hashes the key more than once");
  } else {
    ASSUME(s.m.cap > 0);
    switch (first) {
      case 8: s.insert(k, 1); break;
      case 9: s.emplace(k, 2); break;
      case 10: s.piecewise(k, 3); break;
      case 11: { std::vector<std::pair<int, int>> v; v.emplace_back(k, 4); s.m.insert(k, 4); s.c.insert(v); break; }
    }
  }
  s.tick();
  // again, with another object for the key
  const int again = k;
  const int times = TIER(1, 2);
  for (int j = 0; j < times; j++) {
    const int second = choice(6, "second");
    calls = 0;
    access(s.c, second, again);
    obs(calls);
    CHECK(calls == 0, "an access to the last accessed key invokes the hash function");
  }
  reach("end");
}
// any capacity, up to 2 entries, 1 operation, then every access or insertion followed by every access to the same key
ENTRY(every_u) { shortcut<U<HCount>, O_INSERT | O_CONTAINS | O_LOOKUP | O_ERASE | O_ERASE_U | O_ERASE_O | O_SHRINK | O_CLEAR | O_CAPACITY>(TIER(1, 2), 2); }
ENTRY(plain_u) { shortcut<U<HCount>, O_INSERT>(TIER(2, 3), TIER(1, 0)); }
// erasures of the newest entry by key or iterator before
ENTRY(erased_u) { shortcut<U<HCount>, O_ERASE | O_ERASE_O | O_ERASE_U | O_CONTAINS>(3, 1); }
// hash codes not stored in the nodes
ENTRY(fast_u) { shortcut<U<HCountFast>, O_CONTAINS>(2, 1); }
// timed caches, whether or not the key has expired in between
ENTRY(every_timed) { shortcut<T<HCount>, O_INSERT | O_CONTAINS | O_ERASE | O_CLEAR_EXPIRED | O_ERASE_O | O_CAPACITY>(2, 1); }
// 2 operations before
ENTRY(two_timed) { shortcut<T<HCount>, O_INSERT | O_CONTAINS | O_ERASE>(1, 2); }

// Every lookup in a history of lookups hashes at most once.
template <class S>
static void once(int n, int k) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) {
    if (sym_bool("change")) {
      s.template step<O_INSERT | O_ERASE | O_CAPACITY>();
      continue;
    }
    s.tick();
    const int key = sym_int("key");
    calls_for = 0;
    asked = &key;
    access(s.c, choice(8, "kind"), key);
    asked = nullptr;
    obs(calls_for);
    CHECK(calls_for <= 1, "a lookup hashes the key more than once");
  }
  reach("end");
}
// up to 2 entries, 2 operations of any kind
ENTRY(once_u) { once<U<HCount>>(2, 2); }
ENTRY(once_timed) { once<T<HCount>>(TIER(1, 2), 2); }

// The last accessed entry survives operations on other entries and copies only hash what they must.
template <class S>
static void across(int n) {
  S s = S::any();
  s.prestate(n);
  const int k = sym_int("key");
  const int i = s.expect_lookup(k);
  if (i < 0) ASSUME(false);
  access(s.c, choice(8, "first"), k);
  // queries that must not make it forget
  const auto& cc = s.c;
  switch (choice(3, "query")) {
    case 0: obs(cc.size() + cc.is_full()); break;
    case 1: { int x = 0; for (const auto& e : cc) x += e.second; obs((uint32_t)x); break; }
    case 2: { int x = 0; for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it) x += it->second; obs((uint32_t)x); break; }
  }
  calls = 0;
  access(s.c, choice(6, "second"), k);
  CHECK(calls == 0, "an access to the last accessed key invokes the hash function");
  reach("end");
}
// up to 2 entries, an access, a query, an access
ENTRY(across_u) { across<U<HCount>>(2); }
ENTRY(across_timed) { across<T<HCount>>(2); }

// Removing or missing other entries, growing and shrinking do not access another key.
template <class S>
static void between(int n) {
  S s = S::any();
  s.prestate(n);
  s.tick();
  const int k = sym_int("key");
  const int first = choice(10, "first");
  if (first < 8) {
    const int i = s.expect_lookup(k);
    if (i < 0) ASSUME(false);
    access(s.c, first, k);
  } else {
    ASSUME(s.m.cap > 0);
    if (first == 8) s.insert(k, 1);
    else s.emplace(k, 2);
  }
  s.nlog = 0;
  for (int j = 0; j < TIER(1, 2); j++) {
    s.tick();
    switch (choice(S::timed ? 4 : 3, "between")) {
      case 0: s.template step<O_ERASE | O_ERASE_U | O_ERASE_O>(); break;
      case 1: s.template step<O_CAPACITY | O_SHRINK | O_QUERY>(); break;
      case 2: {
        const int other = sym_int("other");
        ASSUME(s.m.find(other) < 0);
        access(s.c, choice(8, "miss"), other);
        break;
      }
      case 3: s.template step<O_CLEAR_EXPIRED>(); break;
    }
    if (s.m.find(k) < 0) __sym_exit();
  }
  calls = 0;
  access(s.c, choice(6, "second"), k);
  obs(calls);
  CHECK(calls == 0, "an access to the last accessed key invokes the hash function");
  reach("end");
}
// up to 3 entries, an access or insertion, 1 (2) operations that access no other key, an access
ENTRY(between_u) { between<U<HCount>>(TIER(3, 2)); }
ENTRY(between_timed) { between<T<HCount>>(2); }

// ---------------------------------------------------------------- long histories

template <class S>
static void after_many() {
  const Size z = any_size();
  Sequence next = any_sequence();
  S s(z.cap, z.ttl);
  busy(s, next, TIER(300, 1000), z.keys);
  s.tick();
  const int k = sym_int("key");
  if (sym_bool("inserted")) {
    s.insert(k, 7);
  } else {
    const int i = s.expect_lookup(k);
    if (i < 0) ASSUME(false);
    access(s.c, choice(8, "first"), k);
  }
  const int second = choice(6, "second");
  for (int j = 0; j < 40; j++) {
    calls = 0;
    access(s.c, second, k);
    obs(calls);
    CHECK(calls == 0, "an access to the last accessed key invokes the hash function");
  }
  reach("end");
}
// 300 (1000) fixed operations in a cache of capacity 20 or 150, an arbitrary key accessed or inserted, then accessed 40 times
ENTRY(after_many_u) { after_many<U<HCount>>(); }
ENTRY(after_many_timed) { after_many<T<HCount>>(); }
