#define OWN (G_ORDER)
#define MODEL_MAX 200
#include "long.hpp"

template <class S, uint32_t Ops>
static void history(int n, int k) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  s.verify();
  reach("end");
}
constexpr uint32_t CORE = O_INSERT | O_CONTAINS | O_FIND | O_LOOKUP | O_ERASE;
constexpr uint32_t USES = LOOKUPS | INSERTS | O_PIECEWISE | O_ASSIGN;
constexpr uint32_t WIDE = USES | ERASES | O_CAPACITY | O_SHRINK | O_CLEAR | O_QUERY | O_RANGE | O_RRANGE | O_LIST | O_ERASE_END;

// any capacity, up to 3 entries, 3 (4) operations out of insert, contains, find, lookup, erase
ENTRY(core) { history<U<>, CORE>(3, TIER(3, 4)); }
// any capacity, up to 3 entries, 2 (3) operations out of all of them (all lookups const and non-const, erasures by key and iterator, queries)
ENTRY(wide) { history<U<>, WIDE>(3, TIER(2, 3)); }
// two hash values, 3 operations
ENTRY(bits) { history<U<HBit>, CORE>(TIER(2, 3), 3); }
// timed cache, arbitrary clock and time to live, all operations
ENTRY(timed) { history<T<>, WIDE | O_CLEAR_EXPIRED>(TIER(2, 3), TIER(2, 3)); }

// A use, an erasure, a use: 3 entries.
template <class S, uint32_t First, uint32_t Last>
static void around_erasure(bool verify_between) {
  S s = S::any();
  s.prestate(3, true);
  s.template step<First>();
  s.template step<ERASES>();
  if (verify_between) s.verify();
  s.template step<Last>();
  s.verify();
  reach("end");
}
// any capacity, 3 entries, a lookup of any kind or an insertion, an erasure by key or through any iterator, a use of any kind, the whole order
ENTRY(erasure_u) { around_erasure<U<>, LOOKUPS3 | O_INSERT, TIER(LOOKUPS3 | O_INSERT, USES)>(false); }
// the same with two hash values
ENTRY(erasure_bits) { around_erasure<U<HBit>, TIER(O_CONTAINS, LOOKUPS3 | O_INSERT), TIER(O_CONTAINS | O_INSERT, USES)>(false); }
// the same for a timed cache
ENTRY(erasure_timed) { around_erasure<T<>, TIER(O_CONTAINS, LOOKUPS3 | O_INSERT), TIER(O_FIND | O_LOOKUPC | O_INSERT, USES)>(false); }

// An operation in the middle that must not count as a use.
template <class S>
static void neutral(int n, bool two) {
  S s = S::any();
  s.prestate(n);
  s.template step<USES>();
  s.tick();
  s.query();
  if (two && sym_bool("second")) s.query();
  s.verify();
  s.template step<LOOKUPS>();
  s.verify();
  reach("end");
}
// a use, one or two queries (iteration, comparison, validity, expiry), the order, a lookup, the order again
ENTRY(queries) { neutral<U<>>(TIER(2, 3), true); }
// the same for a timed cache
ENTRY(queries_timed) { neutral<T<>>(TIER(2, 3), TIER(false, true)); }

// front() and back() of an empty cache throw EmptyCache (they do not terminate).
// capacity arbitrary, cache emptied by erasing or clearing
ENTRY(empty_ends) {
  U<> s = U<>::any();
  s.prestate(1);
  if (sym_bool("clear")) s.clear();
  else s.erase(sym_int("key"));
  const auto& c = s.c;
  if (s.m.n == 0) {
    int thrown = 0;
    try { c.front(); } catch (const LRU::Error::EmptyCache&) { thrown++; }
    try { c.back(); } catch (const LRU::Error::EmptyCache&) { thrown++; }
    CHECK(thrown == 2, "front or back of an empty cache does not throw EmptyCache");
    reach("empty");
  }
  s.verify();
}
// 9 (20) entries with concrete keys, 3 uses of arbitrary keys, whole order compared
ENTRY(large) {
  const int n = TIER(9, 20);
  U<HLow> s(n + 2);
  for (int i = 0; i < n; i++) s.insert(i * 3, i);
  s.lookup(O_FIND, sym_int("key"));
  s.lookup(O_CONTAINS, sym_int("key"));
  s.lookup(O_LOOKUPC, sym_int("key"));
  s.verify();
  reach("end");
}

// ---------------------------------------------------------------- long histories
// any capacity, up to 2 entries (timed: 1), then 40 (timed: 16) times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys
ENTRY(repeated_u) { pump<U<>>(2, 40); }
ENTRY(repeated_timed) { pump<T<>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup, insertion, erasure or shrink
ENTRY(after_many_u) { long_history<U<HLow>>(TIER(500, 1500), 20, 150, LAST); }
ENTRY(after_many_timed) { long_history<T<HLow>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 13 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure
ENTRY(bursts_u) { bursts<U<HLow>>(BURST, LAST3); }
ENTRY(bursts_timed) { bursts<T<HLow>>(BURST, LAST3); }
// a cache filled with 1100 (5000) entries, a lookup or erasure of any key around one of 6 places, ten insertions of an arbitrary value
ENTRY(huge_u) { huge<U<HAll>>(); }
ENTRY(huge_timed) { huge<T<HAll>>(); }
