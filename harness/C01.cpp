#define OWN (G_SIZE)
#define MODEL_MAX 200
#include "long.hpp"

// Histories of K arbitrary operations after up to N insertions.
template <class S, uint32_t Ops>
static void history(int n, int k) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  s.verify();
  reach("end");
}
constexpr uint32_t CORE = O_INSERT | O_EMPLACE | O_FIND | O_ERASE | O_CAPACITY | O_SHRINK | O_CLEAR;
constexpr uint32_t WIDE = CORE | O_CONTAINS | O_LOOKUP | O_ERASE_U | O_ERASE_O | O_RANGE | O_RRANGE | O_LIST | O_ITERS | O_ASSIGN_RANGE | O_PIECEWISE;
// any capacity, up to 3 (thorough: 4) entries, 3 operations out of insert, emplace, find, erase, capacity, shrink, clear
ENTRY(core) { history<U<>, CORE>(TIER(3, 4), 3); }
// any capacity, up to 3 entries, 2 operations of any kind (ranges of up to 2 elements)
ENTRY(wide) { history<U<>, WIDE>(TIER(3, 3), 2); }
// the same with two hash values (quick: without ranges)
constexpr uint32_t NARROW = CORE | O_CONTAINS | O_LOOKUP | O_ERASE_U | O_ERASE_O | O_PIECEWISE;
ENTRY(wide_bit) { history<U<HBit>, TIER(NARROW, WIDE)>(TIER(2, 3), 2); }
// a timed cache with arbitrary time to live and clock, up to 2 (3) entries, 2 operations of any kind
ENTRY(timed) { history<T<>, WIDE | O_CLEAR_EXPIRED>(TIER(2, 3), 2); }

// ---------------------------------------------------------------- long histories
// any capacity, up to 2 entries (timed: 1), then 40 (timed: 16) times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys
ENTRY(repeated_u) { pump<U<>>(2, 40); }
ENTRY(repeated_timed) { pump<T<>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup, insertion, erasure or shrink
ENTRY(after_many_u) { long_history<U<HLow>>(TIER(500, 1500), 20, 150, LAST); }
ENTRY(after_many_timed) { long_history<T<HLow>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 13 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure
ENTRY(bursts_u) { bursts<U<HLow>>(BURST, LAST3); }
ENTRY(bursts_timed) { bursts<T<HLow>>(BURST, LAST3); }
// a cache filled with 1100 (5000) entries, a lookup or erasure of any key around one of 6 places, ten insertions of an arbitrary value
ENTRY(huge_u) { huge<U<HAll>>(); }
ENTRY(huge_timed) { huge<T<HAll>>(); }
