#define OWN (G_INSERT)
#define MODEL_MAX 200
#include "long.hpp"

template <class S, uint32_t Ops>
static void history(int n, int k, int ranges) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  s.template step<INSERTS | O_PIECEWISE | O_RANGE | O_RRANGE | O_LIST | O_ITERS>(ranges);
  s.verify();
  reach("end");
}
constexpr uint32_t MODS = O_INSERT | O_EMPLACE | O_ERASE | O_CAPACITY | O_CLEAR | O_FIND | O_CONTAINS | O_SHRINK | O_ERASE_U | O_ERASE_O;

// any capacity (0 included), up to 3 entries, one operation, an insertion of one entry or of up to 3 with arbitrary (also equal) keys
ENTRY(one) { history<U<>, MODS>(TIER(2, 3), 1, 3); }
// two operations, an insertion of one or up to 2 entries
ENTRY(two) { history<U<>, MODS>(2, 2, TIER(1, 2)); }
// two hash values
ENTRY(bits) { history<U<HBit>, MODS>(2, 1, TIER(2, 3)); }
// timed caches: an expired entry still counts as present for insertion
ENTRY(timed) { history<T<>, MODS | O_CLEAR_EXPIRED>(2, TIER(1, 2), 2); }
// capacity 0: nothing is stored, results say so
ENTRY(zero) {
  U<> s(0);
  s.template step<INSERTS | O_PIECEWISE | O_RANGE | O_RRANGE | O_LIST | O_ITERS>(2);
  s.template step<INSERTS | O_PIECEWISE>(2);
  s.verify();
  T<> t(0, any_ttl());
  t.template step<INSERTS | O_PIECEWISE | O_RANGE | O_RRANGE | O_LIST | O_ITERS>(2);
  t.verify();
  reach("end");
}
// ranges of 5 elements with arbitrary keys into caches of any capacity
ENTRY_T(long_range) {
  U<> s = U<>::any();
  s.prestate(1);
  s.insert_many(1u << (16 + choice(2, "kind")), 5);
  s.verify();
  reach("end");
}
// the returned iterator is usable: checked access and further use
ENTRY(result_usable) {
  U<> s = U<>::any();
  s.prestate(2);
  int k = sym_int("key"), v = sym_int("value");
  bool f = s.m.insert(k, v);
  auto r = sym_bool("emplace") ? s.c.emplace(k, v) : s.c.insert(k, v);
  CHECK(r.first == f, "first is wrong");
  if (s.m.cap > 0) {
    CHECK(s.c.is_valid(r.second), "the returned iterator is not valid");
    CHECK(r.second.key() == k && r.second.value() == v && (*r.second).first == k, "the returned iterator is wrong");
    CHECK(r.iterator() == s.c.find(k), "the returned iterator differs from find");
    s.c.erase(r.iterator());
    s.m.erase(k);
  }
  s.verify();
  reach("end");
}

// ---------------------------------------------------------------- long histories
// any capacity, up to 2 entries (timed: 1), then 40 (timed: 16) times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys
ENTRY(repeated_u) { pump<U<>>(2, 40); }
ENTRY(repeated_timed) { pump<T<>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup, insertion, erasure or shrink
ENTRY(after_many_u) { long_history<U<HLow>>(TIER(500, 1500), 20, 150, LAST); }
ENTRY(after_many_timed) { long_history<T<HLow>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 13 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure
ENTRY(bursts_u) { bursts<U<HLow>>(BURST, LAST3); }
ENTRY(bursts_timed) { bursts<T<HLow>>(BURST, LAST3); }
// a cache filled with 1100 (5000) entries, a lookup or erasure of any key around one of 6 places, ten insertions of an arbitrary value
ENTRY(huge_u) { huge<U<HAll>>(); }
ENTRY(huge_timed) { huge<T<HAll>>(); }
