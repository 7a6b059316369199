#define OWN (G_TIME | G_SET | G_ORDER | G_VALUE | G_SIZE | G_LOOKUP)
#define MODEL_MAX 200
#include "long.hpp"

// Everything about expiry after a history, then what is left behaves as before.
template <class S>
static void expire(S& s, bool twice) {
  const auto& cc = s.c;
  s.tick();
  if (twice) {
    bool a = cc.all_expired();
    obs(a);
    CHECK(a == s.m.all_expired(), a ? "all_expired is true although an entry has not expired" : "all_expired is false although every entry has expired");
  }
  s.perform(O_CLEAR_EXPIRED);
  s.verify();
  bool a = cc.all_expired();
  CHECK(a == s.m.all_expired(), "all_expired is wrong after clear_expired");
  // the remaining lifetime of the others is what it was
  s.tick();
  CHECK(cc.all_expired() == s.m.all_expired(), "all_expired is wrong");
  for (int i = 0; i < s.m.n; i++) CHECK(cc.has_expired(s.m.e[i].key) == s.m.expired(i), "clear_expired changed the lifetime of an entry it left");
  reach("end");
}
template <class S, uint32_t Ops, uint32_t Post>
static void history(int n, int k, int post) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  expire(s, true);
  for (int i = 0; i < post; i++) s.template step<Post>();
  s.verify();
}
constexpr uint32_t OPS = O_INSERT | O_EMPLACE | LOOKUPS3 | O_ERASE | O_CAPACITY | O_CLEAR;
constexpr uint32_t POST = O_INSERT | LOOKUPS3 | O_CLEAR_EXPIRED | O_ERASE | O_CAPACITY;
// any capacity, time to live and times; up to 3 entries, 1 (2) operations, all_expired, clear_expired, remaining lifetimes, another operation
ENTRY(core) { history<T<>, OPS, POST>(TIER(2, 3), TIER(1, 2), 1); }
// two operations (lookups and updates permute the order against the ages)
ENTRY(permuted) { history<T<>, O_INSERT | O_CONTAINS | O_LOOKUPC, POST>(TIER(2, 3), 2, 0); }
// up to 3 entries
ENTRY(three) { history<T<>, O_INSERT | O_FIND, O_CONTAINS | O_INSERT>(3, 1, 0); }
// two hash values
ENTRY(bits) { history<T<HBit>, O_INSERT | O_CONTAINS, O_CONTAINS | O_INSERT>(2, 1, 1); }
// clear_expired through iterators and erasures of everything else
ENTRY(wide) { history<T<>, OPS | O_ERASE_U | O_ERASE_O | O_SHRINK | O_RANGE | O_ASSIGN | O_ASSIGN_RANGE, POST | O_ERASE_O>(TIER(1, 2), TIER(1, 2), 1); }
// an empty cache, in whatever way it became empty
ENTRY(empty) {
  T<> s = T<>::any();
  s.prestate(1);
  switch (choice(3, "how")) {
    case 0: s.clear(); break;
    case 1: s.erase(sym_int("key")); break;
    case 2: s.capacity(0); break;
  }
  expire(s, true);
  if (s.m.n == 0) {
    CHECK(s.c.all_expired() && s.c.clear_expired() == 0, "an empty cache has no expired entries");
    reach("empty");
  }
}
// 4 (5) entries of arbitrary ages, each used or not
ENTRY(four) {
  T<> s(8, any_ttl());
  const int n = TIER(4, 5);
  for (int i = 0; i < n; i++) { s.tick(); s.insert(i, i); }
  for (int i = 0; i < 2; i++) s.lookup(O_CONTAINS, (int)choice(n, "used"));
  expire(s, true);
}
// 10 (20) entries; two groups of ages, two updates of arbitrary keys
ENTRY(large) {
  using S = Sys<LRU::TimedCache<int, int, NS, HLow>, true>;
  const int n = TIER(10, 20);
  S s(n, any_ttl());
  for (int i = 0; i < n; i++) {
    if (i == n / 2) s.tick();
    s.insert(i, i);
  }
  s.tick();
  for (int i = 0; i < 2; i++) { int k = sym_int("key"); s.insert(k, 9); }
  expire(s, true);
}

// ---------------------------------------------------------------- long histories
// any capacity, up to 1 entry, then 16 times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys and the same time between two rounds
ENTRY(repeated) { pump<T<>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup, insertion, erasure, shrink or clear_expired
ENTRY(after_many) { long_history<T<HLow>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 14 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion, erasure or clear_expired
ENTRY(bursts) { bursts<T<HLow>>(BURST, LAST3 | O_CLEAR_EXPIRED); }
// a cache filled with 1100 (5000) entries, a lookup or erasure of any key around one of 6 places, ten insertions of an arbitrary value
ENTRY(huge_t) { huge<T<HAll>>(); }
