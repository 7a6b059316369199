#define OWN (G_ERASE | G_SET | G_ORDER | G_VALUE | G_SIZE)
#define MODEL_MAX 200
#include "long.hpp"

template <class S, uint32_t Pre, uint32_t Post>
static void history(int n, int k) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Pre>();
  s.template step<ERASES | O_ERASE_END | O_CLEAR>();
  s.verify();
  s.template step<Post>();
  s.verify();
  reach("end");
}
constexpr uint32_t PRE = O_INSERT | O_CONTAINS | O_FIND | O_CAPACITY | ERASES;
constexpr uint32_t POST = O_INSERT | O_EMPLACE | O_CONTAINS | O_FIND | O_LOOKUP | O_CAPACITY | O_SHRINK | ERASES | O_CLEAR | O_ERASE_END;

// any capacity, up to 3 entries, one operation, an erasure (key, const/non-const ordered/unordered iterator, end, clear), any further operation
ENTRY(one) { history<U<>, PRE, POST>(3, 1); }
// two operations before
ENTRY_T(two) { history<U<>, PRE, POST>(3, 2); }
// two hash values
ENTRY(bits) { history<U<HBit>, PRE, POST>(2, 1); }
// timed caches: erasure of expired and fresh entries
ENTRY(timed) { history<T<>, O_INSERT | O_CONTAINS | O_FIND, POST | O_CLEAR_EXPIRED>(2, 1); }

// The iterator comes from find, an insertion result, or iteration with intermediate dereferencing.
template <class S>
static void by_iterator(int n) {
  S s = S::any();
  s.prestate(n);
  s.tick();
  auto& c = s.c;
  const auto& cc = s.c;
  int k = sym_int("key");
  switch (choice(6, "source")) {
    case 0: {
      int i = s.expect_lookup(k);
      auto it = c.find(k);
      if (i < 0) ASSUME(false);
      c.erase(it);
      s.m.erase(k);
      break;
    }
    case 1: {
      int i = s.expect_lookup(k);
      auto it = cc.find(k);
      if (i < 0) ASSUME(false);
      obs(it->second);
      c.erase(it);
      s.m.erase(k);
      break;
    }
    case 2: {
      int v = sym_int("value");
      auto r = c.insert(k, v);
      s.m.insert(k, v);
      if (s.m.cap == 0) ASSUME(false);
      c.erase(r.iterator());
      s.m.erase(k);
      break;
    }
    case 3: {  // an ordered iterator made from an unordered one
      int i = s.expect_lookup(k);
      auto it = c.find(k);
      if (i < 0) ASSUME(false);
      typename S::Cache::OrderedIterator o(it);
      c.erase(o);
      s.m.erase(k);
      break;
    }
    case 4: {  // dereferenced before the erasure
      if (s.m.n == 0) ASSUME(false);
      auto it = c.ordered_begin();
      obs((uint32_t)it->first);
      c.erase(it);
      s.m.remove(0);
      break;
    }
    case 5: {  // backwards
      if (s.m.n == 0) ASSUME(false);
      auto it = c.ordered_end();
      --it;
      obs((uint32_t)it->first);
      c.erase(it);
      s.m.remove(s.m.n - 1);
      break;
    }
  }
  s.verify();
  s.template step<POST>();
  s.verify();
  reach("end");
}
// up to 3 entries, the iterator from find, insert, conversion or iteration
ENTRY(iterators) { by_iterator<U<>>(TIER(2, 3)); }
// the same on a timed cache
ENTRY(iterators_timed) { by_iterator<T<>>(2); }
// keys that live inside the cache: erase(front()), erase(back()), erase(entry.key())
ENTRY(own_keys) {
  U<> s = U<>::any();
  s.prestate(3);
  s.template step<O_CONTAINS | O_INSERT>();
  if (s.m.n == 0) ASSUME(false);
  int k;
  switch (choice(3, "which")) {
    case 0: k = s.c.front(); CHECK(s.c.erase(s.c.front()), "erase of a stored key returned false"); break;
    case 1: k = s.c.back(); CHECK(s.c.erase(s.c.back()), "erase of a stored key returned false"); break;
    default: { auto it = s.c.unordered_begin(); k = it.key(); CHECK(s.c.erase(it.key()), "erase of a stored key returned false"); break; }
  }
  s.m.erase(k);
  s.verify();
  s.template step<POST>();
  s.verify();
  reach("end");
}
// 9 (20) entries, one erased by an arbitrary key, an arbitrary insertion afterwards
ENTRY(large) {
  const int n = TIER(9, 20);
  U<HLow> s(n);
  for (int i = 0; i < n; i++) s.insert(i * 3, i);
  s.erase(sym_int("key"));
  s.verify();
  int k = sym_int("key");
  s.insert(k, 5);
  s.verify();
  reach("end");
}

// ---------------------------------------------------------------- long histories
// any capacity, up to 2 entries (timed: 1), then 40 (timed: 16) times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys
ENTRY(repeated_u) { pump<U<>>(2, 40); }
ENTRY(repeated_timed) { pump<T<>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup, insertion, erasure or shrink
ENTRY(after_many_u) { long_history<U<HLow>>(TIER(500, 1500), 20, 150, LAST); }
ENTRY(after_many_timed) { long_history<T<HLow>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 13 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure
ENTRY(bursts_u) { bursts<U<HLow>>(BURST, LAST3); }
ENTRY(bursts_timed) { bursts<T<HLow>>(BURST, LAST3); }
// a cache filled with 1100 (5000) entries, a lookup or erasure of any key around one of 6 places, ten insertions of an arbitrary value
ENTRY(huge_u) { huge<U<HAll>>(); }
ENTRY(huge_timed) { huge<T<HAll>>(); }
