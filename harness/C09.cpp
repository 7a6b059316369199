#define OWN (G_LOOKUP | G_TIME | G_VALUE)
#define MODEL_MAX 200
#include "long.hpp"

// has_expired for an arbitrary key and for every entry by iterator.
template <class S>
static void expiry(S& s) {
  auto& c = s.c;
  const auto& cc = s.c;
  Model& m = s.m;
  int k = sym_int("key");
  int i = m.find(k);
  bool b = cc.has_expired(k);
  obs(b);
  CHECK(b == (i >= 0 && m.expired(i)), i < 0 ? "a key that is not stored is reported as expired" : b ? "a fresh key is reported as expired" : "an expired key is not reported as expired");
  for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) {
    int j = m.find(it->first);
    ASSUME(j >= 0);
    CHECK(cc.has_expired(it) == m.expired(j), "has_expired is wrong for an ordered iterator");
  }
  for (auto it = cc.unordered_begin(); it != cc.unordered_end(); ++it) {
    int j = m.find(it->first);
    ASSUME(j >= 0);
    CHECK(c.has_expired(it) == m.expired(j), "has_expired is wrong for an unordered iterator");
  }
  CHECK(!cc.has_expired(c.ordered_end()) && !cc.has_expired(cc.unordered_end()), "an end iterator is reported as expired");
}

template <class S, uint32_t Ops, uint32_t Probe>
static void history(int n, int k, int probes) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  for (int i = 0; i < probes; i++) s.template step<Probe>();
  if (sym_bool("at_another_time")) s.tick();
  expiry(s);
  s.verify();
  reach("end");
}
constexpr uint32_t MODS = O_INSERT | O_EMPLACE | O_PIECEWISE | O_ERASE | O_CAPACITY | O_ASSIGN | LOOKUPS3;

constexpr uint32_t FEW = O_INSERT | O_CONTAINS | O_ERASE | O_CAPACITY | O_ASSIGN;
// any capacity, time to live and times; up to 2 entries, 2 operations, a lookup of any kind, has_expired for everything
ENTRY(core) { history<T<>, TIER(FEW, MODS), LOOKUPS>(2, 2, 1); }
// two lookups in a row (the second may be served by the last-accessed shortcut)
ENTRY(twice) { history<T<>, O_INSERT | O_CONTAINS, LOOKUPS>(2, 1, 2); }
// two hash values
ENTRY(bits) { history<T<HBit>, O_INSERT | O_CONTAINS | O_ERASE, LOOKUPS3 | O_LOOKUPC>(2, 1, 1); }
// ranges: every element gets the time at which it was inserted
ENTRY(ranges) { history<T<>, O_RANGE | O_RRANGE | O_LIST | O_ITERS | O_ASSIGN_RANGE, LOOKUPS3>(TIER(1, 2), 1, 1); }
// up to 3 entries, an update, a lookup of any kind
ENTRY(three) { history<T<>, O_INSERT | O_EMPLACE, LOOKUPS3>(3, TIER(1, 2), 1); }

// The same key over and over: insertion, update, lookups at arbitrary times, capacity at least 1.
// 1 key, 4 (5) steps out of insert, emplace, contains, find, lookup, [], assignment, erase
ENTRY(one_key) {
  size_t cap = 1 + (size_t)choice(2, "more_capacity");
  T<> s(cap, any_ttl());
  int k = sym_int("key");
  s.tick();
  s.insert(k, sym_int("value"));
  for (int i = 0; i < TIER(3, 4); i++) {
    s.tick();
    switch (choice(9, "operation")) {
      case 0: s.insert(k, sym_int("value")); break;
      case 1: s.emplace(k, sym_int("value")); break;
      case 2: s.lookup(O_CONTAINS, k); break;
      case 3: s.lookup(O_FIND, k); break;
      case 4: s.lookup(O_LOOKUP, k); break;
      case 5: s.lookup(O_INDEXC, k); break;
      case 6: s.erase(k); break;
      case 7: s.piecewise(k, 3); break;
      case 8: s.assign(0, k, 4); break;
    }
  }
  expiry(s);
  s.verify();
  reach("end");
}
// times to live and ages over 44 bits (about 4.8 hours in ns), negative times to live included
ENTRY(long_times) {
  int64_t ttl = (int64_t)__sym_var(44, "ttl") - 1000;
  T<> s(4, ttl);
  s.insert(1, 10);
  __sym_now_ns += (int64_t)__sym_var(44, "elapsed");
  s.insert(2, 20);
  __sym_now_ns += (int64_t)__sym_var(44, "elapsed");
  const uint32_t kind = 1u << nth_bit(LOOKUPS, choice(__builtin_popcount(LOOKUPS), "lookup"));
  s.lookup(kind, sym_int("key"));
  expiry(s);
  reach("end");
}
// times to live of any 64-bit number of ns, ages over 44 bits
ENTRY(any_ttl_at_all) {
  int64_t ttl = sym_i64("ttl");
  T<> s(4, ttl);
  s.insert(1, 10);
  __sym_now_ns += (int64_t)__sym_var(44, "elapsed");
  s.insert(2, 20);
  if (sym_bool("later")) __sym_now_ns += (int64_t)__sym_var(44, "elapsed");
  const uint32_t kind = 1u << nth_bit(LOOKUPS, choice(__builtin_popcount(LOOKUPS), "lookup"));
  s.lookup(kind, sym_int("key"));
  expiry(s);
  CHECK(s.c.all_expired() == (s.m.expired(0) && s.m.expired(1)), "all_expired is wrong");
  s.c.clear_expired();
  s.m.clear_expired();
  s.verify();
  reach("end");
}
// The wall clock may jump in any direction: only the steady clock counts.
// any wall-clock times
ENTRY(wall_clock) {
  T<> s(2, any_ttl());
  for (int i = 0; i < 3; i++) {
    __sym_sys_ns = sym_i64("wall_clock");
    s.tick();
    int k = sym_int("key");
    if (i < 2) s.insert(k, i);
    else s.lookup(O_LOOKUP, k);
  }
  __sym_sys_ns = sym_i64("wall_clock");
  expiry(s);
  reach("end");
}

// Copies and moved caches go on with the times of the entries they took over.
template <class S, uint32_t Probe>
static void handed_over(int n) {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(n);
  s.tick();
  C* p;
  switch (choice(8, "form")) {
    case 0: p = new C(s.c); break;
    case 1: p = new C(std::move(s.c)); break;
    case 2: p = new C(NS(any_ttl()), 1); *p = s.c; break;
    case 3: p = new C(NS(any_ttl()), 1); *p = std::move(s.c); break;
    case 4: p = new C(NS(any_ttl()), 1); p->swap(s.c); break;
    case 5: { C q(s.c); p = new C(q); break; }
    case 6: p = new C(s.c); s.c = *p; break;
    default: p = new C(NS(any_ttl()), 1); p->insert(7, 7); { using std::swap; swap(*p, s.c); } break;
  }
  S t(p, s.m);
  t.template step<Probe>();
  expiry(t);
  t.verify();
  reach("end");
}
// any capacity, time to live and times; up to 2 (3) entries, then a copy, copy of a copy, copy assignment, move, move assignment or swap, then (any time later) one lookup or update through the new owner, has_expired for everything
ENTRY(handed_over_t) { handed_over<T<>, TIER(LOOKUPS3 | O_INSERT, LOOKUPS | INSERTS)>(TIER(2, 3)); }
// the same with two hash values, and a lookup
ENTRY(handed_over_bits) { handed_over<T<HBit>, O_FIND>(2); }

// Time passes while an operation runs: what it does has to be right for one of the
// times between its start and its end.
template <uint32_t Kinds>
static void passing() {
  int64_t ttl = any_ttl();
  T<> s(2, ttl);
  auto& c = s.c;
  const auto& cc = s.c;
  int k = sym_int("key");
  __sym_tick_ns = (int64_t)__sym_var(6, "passing");
  int64_t from = __sym_now_ns;
  c.insert(k, 5);
  int64_t to = __sym_now_ns;
  if (sym_bool("update")) {
    s.tick();
    from = __sym_now_ns;
    c.insert(k, 6);
    to = __sym_now_ns;
  }
  for (int i = 0; i < 2; i++) {
    s.tick();
    int64_t start = __sym_now_ns;
    bool served = false;
    bool query = false;
    switch (nth_bit(Kinds, choice(__builtin_popcount(Kinds), "lookup"))) {
      case 0: served = cc.contains(k); break;
      case 1: served = c.find(k) != c.end(); break;
      case 2: served = cc.find(k) != cc.end(); break;
      case 3: try { obs(c.lookup(k)); served = true; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      case 4: try { obs(cc.lookup(k)); served = true; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      case 5: try { obs(c[k]); served = true; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      case 6: served = !cc.has_expired(k); break;
      case 7: served = !cc.has_expired(cc.unordered_begin()); break;
      case 8: served = !cc.has_expired(cc.ordered_begin()); break;
    }
    int64_t end = __sym_now_ns;
    obs(served);
    if (start - to > ttl) CHECK(!served, "an entry that had expired before the call was served");
    if (end - from <= ttl) CHECK(served, "an entry that was still fresh after the call was not served");
  }
  reach("end");
}
// every reading of the clock advances it by any (6 bit) time; insertion, maybe an update, two lookups of any kind
ENTRY(passing_time) { passing<0x1ff>(); }

// Other durations and types of the time to live.
template <class D, class Ttl>
static void with_duration(Ttl ttl, int64_t unit, const int64_t* ages, int nages) {
  using C = LRU::TimedCache<int, int, D, HConst>;
  Sys<C, true> s(new C(ttl, 3), Model());
  s.m.cap = 3;
  s.m.timed = true;
  int k = sym_int("key"), k2 = sym_int("other_key");
  auto& c = s.c;
  c.insert(k, 1);
  if (sym_bool("lookup_between")) CHECK(c.contains(k) == (ttl.count() >= 0), "contains is wrong at age 0");
  int64_t age = ages[choice(nages, "age")];
  __sym_now_ns += age;
  D limit = std::chrono::duration_cast<D>(ttl);
  bool fresh = !(D(std::chrono::duration_cast<D>(NS(age))) > limit);
  switch (choice(5, "lookup")) {
    case 0: CHECK(c.contains(k) == fresh, "contains is wrong"); break;
    case 1: CHECK((c.find(k) != c.end()) == fresh, "find is wrong"); break;
    case 2: {
      bool ok = false;
      try { ok = c.lookup(k) == 1; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {}
      CHECK(ok == fresh, "lookup is wrong");
      break;
    }
    case 3: CHECK(c.has_expired(k) == !fresh, "has_expired is wrong"); break;
    case 4: CHECK(c.all_expired() == !fresh && c.clear_expired() == (fresh ? 0u : 1u) && c.size() == (fresh ? 1u : 0u), "all_expired or clear_expired is wrong"); break;
  }
  if (k2 != k) CHECK(!c.has_expired(k2) && !c.contains(k2), "a key that is not stored is served or reported as expired");
  reach("end");
}
using ms_double = std::chrono::duration<double, std::milli>;
static const int64_t MS = 1000000;
// the default duration (double milliseconds), 7 times to live given in milliseconds, microseconds or fractions, 9 ages around them (these values are concrete)
ENTRY(default_duration) {
  static const int64_t ages[] = {0, 1, MS / 2, MS - 1, MS, MS + 1, 2 * MS, 100 * MS, 3600000 * MS};
  switch (choice(6, "ttl")) {
    case 0: with_duration<ms_double>(std::chrono::milliseconds(1), MS, ages, 9); break;
    case 1: with_duration<ms_double>(std::chrono::microseconds(500), MS, ages, 9); break;
    case 2: with_duration<ms_double>(ms_double(1.5), MS, ages, 9); break;
    case 3: with_duration<ms_double>(std::chrono::seconds(3600), MS, ages, 9); break;
    case 4: with_duration<ms_double>(std::chrono::milliseconds(0), MS, ages, 9); break;
    case 5: with_duration<ms_double>(std::chrono::nanoseconds(999999), MS, ages, 9); break;
  }
}
// milliseconds and seconds as integral durations: ages count in whole units (concrete ages and times to live)
ENTRY(integral_durations) {
  static const int64_t ages[] = {0, MS - 1, MS, 2 * MS - 1, 2 * MS, 999 * MS, 1000 * MS, 2000 * MS - 1, 2000 * MS, 5000 * MS};
  switch (choice(5, "ttl")) {
    case 0: with_duration<std::chrono::milliseconds>(std::chrono::milliseconds(1), MS, ages, 10); break;
    case 1: with_duration<std::chrono::milliseconds>(std::chrono::seconds(1), MS, ages, 10); break;
    case 2: with_duration<std::chrono::seconds>(std::chrono::milliseconds(1000), MS, ages, 10); break;
    case 3: with_duration<std::chrono::duration<double>>(std::chrono::milliseconds(1999), MS, ages, 10); break;
    case 4: with_duration<std::chrono::minutes>(std::chrono::hours(2), MS, ages, 10); break;
  }
}

// Every way to construct a timed cache, with a time to live in another unit than the cache's.
template <class D, class Ttl>
static void constructed(Ttl ttl) {
  using C = LRU::TimedCache<int, int, D, HConst>;
  const int k = sym_int("key");
  std::vector<std::pair<int, int>> src{{k, 1}};
  std::unique_ptr<C> p;
  switch (choice(11, "constructor")) {
    case 0: p.reset(new C(ttl)); p->insert(k, 1); break;
    case 1: p.reset(new C(ttl, 3)); p->insert(k, 1); break;
    case 2: p.reset(new C(ttl, 3, HConst())); p->insert(k, 1); break;
    case 3: p.reset(new C(ttl, 3, HConst(), std::equal_to<int>())); p->emplace(k, 1); break;
    case 4: p.reset(new C(ttl, src.begin(), src.end())); break;
    case 5: p.reset(new C(ttl, 3, src.begin(), src.end())); break;
    case 6: p.reset(new C(ttl, src)); break;
    case 7: p.reset(new C(ttl, 3, std::move(src))); break;
    case 8: p.reset(new C(ttl, std::move(src))); break;
    case 9: p.reset(new C(ttl, {{k, 1}})); break;
    case 10: p.reset(new C(ttl, 3, {{k, 1}})); break;
  }
  if (sym_bool("handed over")) {
    C other(Ttl(1), 2);
    switch (choice(5, "how")) {
      case 0: other = *p; *p = other; break;
      case 1: other = std::move(*p); *p = std::move(other); break;
      case 2: p.reset(new C(C(*p))); break;
      case 3: other.swap(*p); p->swap(other); break;
      case 4: *p = {{k, 1}}; break;
    }
  }
  const int64_t limit = std::chrono::duration_cast<NS>(ttl).count();
  __sym_now_ns += limit;
  CHECK(p->contains(k) && !p->has_expired(k), "an entry as old as the time to live is not served");
  const int64_t unit = std::chrono::duration_cast<NS>(D(1)).count();
  __sym_now_ns += unit;
  CHECK(!p->contains(k) && p->has_expired(k), "an entry that has expired is served");
  reach("end");
}
// all constructors, 4 durations and units of the time to live, then maybe copied, moved, swapped or assigned
ENTRY(constructors) {
  switch (choice(4, "duration")) {
    case 0: constructed<std::chrono::milliseconds>(std::chrono::seconds(2)); break;
    case 1: constructed<ms_double>(std::chrono::seconds(2)); break;
    case 2: constructed<std::chrono::seconds>(std::chrono::hours(1)); break;
    case 3: constructed<std::chrono::microseconds>(std::chrono::duration<double>(0.5)); break;
  }
}

// ---------------------------------------------------------------- long histories
// any capacity, up to 1 entry, then 16 times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys and the same time between two rounds
ENTRY(repeated) { pump<T<>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup, insertion, erasure, shrink or clear_expired
ENTRY(after_many) { long_history<T<HLow>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 14 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion, erasure or clear_expired
ENTRY(bursts) { bursts<T<HLow>>(BURST, LAST3 | O_CLEAR_EXPIRED); }
// a cache filled with 1100 (5000) entries, a lookup or erasure of any key around one of 6 places, ten insertions of an arbitrary value
ENTRY(huge_t) { huge<T<HAll>>(); }
