#define OWN (G_LOOKUP | G_VALUE)
#define MODEL_MAX 200
#include "long.hpp"

// After any history, an arbitrary key looked up in an arbitrary way.
template <class S, uint32_t Ops>
static void history(int n, int k, int probes) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  for (int i = 0; i < probes; i++) s.template step<LOOKUPS>();
  s.verify();
  reach("end");
}
constexpr uint32_t MODS = O_INSERT | O_EMPLACE | O_ERASE | O_CAPACITY | O_CLEAR | O_ASSIGN;
constexpr uint32_t WIDE = MODS | LOOKUPS3 | O_ERASE_U | O_ERASE_O | O_SHRINK | O_PIECEWISE | O_RANGE | O_RRANGE | O_LIST | O_ITERS | O_ASSIGN_RANGE;

// any capacity, up to 3 entries, 2 modifying operations, 1 (2) lookups of any kind
ENTRY(core) { history<U<>, MODS>(3, 2, TIER(1, 2)); }
// all operations, then a lookup of any kind
ENTRY(wide) { history<U<>, WIDE>(TIER(1, 3), TIER(2, 2), 1); }
// a lookup, a modification, a lookup (stale answers from the last-accessed shortcut)
template <class S>
static void sandwich(int n) {
  S s = S::any();
  s.prestate(n);
  s.template step<LOOKUPS>();
  s.template step<MODS | O_ERASE_U | O_ERASE_O | O_SHRINK>();
  s.template step<LOOKUPS>();
  s.verify();
  reach("end");
}
// up to 3 entries, lookup, modification, lookup
ENTRY(sandwich_u) { sandwich<U<>>(3); }
// the same with two hash values and up to 2 entries
ENTRY(sandwich_bit) { sandwich<U<HBit>>(2); }
// the same for timed caches under an arbitrary clock
ENTRY(sandwich_timed) { sandwich<T<>>(TIER(2, 3)); }
// timed: all operations, then a lookup of any kind
ENTRY(timed) { history<T<>, MODS | O_LOOKUP | O_CLEAR_EXPIRED>(2, TIER(1, 2), 1); }

// An update through every kind of reference and iterator, then read back in every way.
template <class S>
static void through(bool timed) {
  S s = S::any();
  s.prestate(2);
  int k = sym_int("key"), v = sym_int("new_value");
  uint32_t how = choice(8, "how");
  int i = s.expect_lookup(k);
  if (how < 5) {
    if (i < 0) ASSUME(false);
    s.m.e[i].val = v;
  }
  auto& c = s.c;
  switch (how) {
    case 0: c.lookup(k) = v; break;
    case 1: c[k] = v; break;
    case 2: c.find(k)->second = v; break;
    case 3: c.find(k).value() = v; break;
    case 4: { auto e = *c.find(k); e.second = v; break; }
    case 5: {  // ordered iterator
      if (s.m.n == 0) ASSUME(false);
      if (i >= 0) s.lookup(O_CONTAINS, k);
      else s.lookup(O_CONTAINS, k);
      auto it = c.ordered_begin();
      it->second = v;
      s.m.e[0].val = v;
      break;
    }
    case 6: {  // range-for over the unordered entries
      s.lookup(O_CONTAINS, k);
      for (auto& e : c) e.second = v;
      for (int j = 0; j < s.m.n; j++) s.m.e[j].val = v;
      break;
    }
    case 7: {  // the iterator of an insertion
      auto r = c.insert(k, 7);
      s.m.insert(k, 7);
      if (s.m.cap == 0) ASSUME(false);
      r.iterator()->second = v;
      s.m.e[s.m.n - 1].val = v;
      break;
    }
  }
  s.template step<LOOKUPS>();
  s.verify();
  reach("end");
}
// up to 2 entries, assignment through lookup, [], find, entries, iterators, insertion results
ENTRY(through_u) { through<U<>>(false); }
// the same on a timed cache
ENTRY(through_timed) { through<T<>>(true); }
// 9 (20) entries with concrete keys, an update and two lookups of arbitrary keys
ENTRY(large) {
  const int n = TIER(9, 20);
  U<HLow> s(n - 1);
  for (int i = 0; i < n; i++) s.insert(i * 3, i);
  int k = sym_int("key");
  s.insert(k, 5);
  s.template step<LOOKUPS3>();
  s.template step<LOOKUPS3>();
  reach("end");
}

// ---------------------------------------------------------------- long histories
// any capacity, up to 2 entries (timed: 1), then 40 (timed: 16) times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys
ENTRY(repeated_u) { pump<U<>>(2, 40); }
ENTRY(repeated_timed) { pump<T<>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup, insertion, erasure or shrink
ENTRY(after_many_u) { long_history<U<HLow>>(TIER(500, 1500), 20, 150, LAST); }
ENTRY(after_many_timed) { long_history<T<HLow>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 13 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure
ENTRY(bursts_u) { bursts<U<HLow>>(BURST, LAST3); }
ENTRY(bursts_timed) { bursts<T<HLow>>(BURST, LAST3); }
// a cache filled with 1100 (5000) entries, a lookup or erasure of any key around one of 6 places, ten insertions of an arbitrary value
ENTRY(huge_u) { huge<U<HAll>>(); }
ENTRY(huge_timed) { huge<T<HAll>>(); }
