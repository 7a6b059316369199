#define OWN (G_SET | G_VALUE)
#define MODEL_MAX 200
#include "long.hpp"

// Which entries remain (and their values) after histories in which insertions,
// lower capacities and shrinking remove entries.
template <class S, uint32_t Ops>
static void history(int n, int k) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  s.verify();
  s.verify_unordered();
  reach("end");
}
constexpr uint32_t EVICT = O_INSERT | O_EMPLACE | O_CAPACITY | O_SHRINK;
constexpr uint32_t CORE = EVICT | O_CONTAINS | O_FIND | O_ERASE;
constexpr uint32_t WIDE = CORE | LOOKUPS | O_PIECEWISE | O_ASSIGN | O_RANGE | O_RRANGE | O_LIST | O_ERASE_U | O_ERASE_O | O_CLEAR | O_ASSIGN_RANGE;

// any capacity, up to 3 (thorough: 4) entries, then 3 (4) operations out of insert, emplace, capacity, shrink, contains, find, erase
ENTRY(core) { history<U<>, CORE>(TIER(3, 4), TIER(3, 4)); }
// any capacity, up to 3 entries, then 2 (3) operations out of all modifying operations and all lookups
ENTRY(wide) { history<U<>, WIDE>(3, TIER(2, 3)); }
// the same with two buckets' worth of hash values
ENTRY(wide_bit) { history<U<HBit>, CORE>(TIER(2, 3), TIER(3, 3)); }
// a timed cache with arbitrary time to live and clock
ENTRY(timed) { history<T<>, CORE | O_LOOKUP | O_CLEAR_EXPIRED>(TIER(2, 3), TIER(2, 3)); }

// The entries are used in an arbitrary order first, then one new key comes in, or the capacity drops.
template <class S>
static void one_eviction(int n) {
  S s = S::any();
  s.prestate(n, true);
  if (s.m.n < n) { s.verify(); return; }
  int uses = choice(3, "uses");
  for (int i = 0; i < uses; i++) {
    s.tick();
    int k = s.m.e[choice(s.m.n, "which")].key;
    switch (choice(4, "use")) {
      case 0: s.lookup(O_CONTAINS, k); break;
      case 1: s.lookup(O_LOOKUP, k); break;
      case 2: s.lookup(O_FINDC, k); break;
      case 3: s.insert(k, sym_int("value")); break;
    }
  }
  s.tick();
  switch (choice(4, "evict")) {
    case 0: { int k = sym_int("key"); s.insert(k, sym_int("value")); break; }
    case 1: { int k = sym_int("key"); s.emplace(k, sym_int("value")); break; }
    case 2: s.capacity(sym_size("capacity")); break;
    case 3: s.shrink(sym_size("size")); break;
  }
  s.verify();
  reach("end");
}
// 4 (5) entries under any capacity, 0..2 uses of any of them, then one insertion, capacity change or shrink with arbitrary arguments
ENTRY(full) { one_eviction<U<>>(TIER(4, 5)); }
// the same for a timed cache with 3 entries
ENTRY(full_timed) { one_eviction<T<>>(3); }

// Larger caches: concrete distinct keys, symbolic uses and insertion.
// 9 (20) entries in a full cache, 2 arbitrary uses, 2 insertions of arbitrary keys
ENTRY(large) {
  const int n = TIER(9, 20);
  U<HLow> s(n);
  for (int i = 0; i < n; i++) s.insert(i * 3, i);
  for (int i = 0; i < 2; i++) s.lookup(O_CONTAINS, sym_int("key"));
  int k = 3 * n + 1;
  s.insert(k, 1);
  s.emplace(k + 1, 2);
  s.verify();
  reach("end");
}

// ---------------------------------------------------------------- long histories
// any capacity, up to 2 entries (timed: 1), then 40 (timed: 16) times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys
ENTRY(repeated_u) { pump<U<>>(2, 40); }
ENTRY(repeated_timed) { pump<T<>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup, insertion, erasure or shrink
ENTRY(after_many_u) { long_history<U<HLow>>(TIER(500, 1500), 20, 150, LAST); }
ENTRY(after_many_timed) { long_history<T<HLow>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 13 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure
ENTRY(bursts_u) { bursts<U<HLow>>(BURST, LAST3); }
ENTRY(bursts_timed) { bursts<T<HLow>>(BURST, LAST3); }
// a cache filled with 1100 (5000) entries, a lookup or erasure of any key around one of 6 places, ten insertions of an arbitrary value
ENTRY(huge_u) { huge<U<HAll>>(); }
ENTRY(huge_timed) { huge<T<HAll>>(); }
