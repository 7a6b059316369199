#define OWN (G_STATS)
#define MODEL_MAX 200
#include "long.hpp"

// What the statistics have to say, kept from the lookups the driver makes.
struct Counts {
  static constexpr int MAXK = 40;
  size_t hits = 0, misses = 0;
  int nk = 0;
  int key[MAXK];
  size_t h[MAXK], m[MAXK];
  int find(int k) const {
    for (int i = 0; i < nk; i++) if (key[i] == k) return i;
    return -1;
  }
  void monitor(int k) {
    if (find(k) >= 0) return;
    key[nk] = k;
    h[nk] = m[nk] = 0;
    nk++;
  }
  void add(int k, bool hit) {
    (hit ? hits : misses)++;
    int i = find(k);
    if (i >= 0) (hit ? h[i] : m[i])++;
  }
};
// Moves the lookups logged since `from` into the counts.
template <class S>
static void drain(S& s, Counts& x) {
  for (int i = 0; i < s.nlog; i++) x.add(s.log[i].key, s.log[i].hit);
  s.nlog = 0;
}
static void compare(const LRU::Statistics<int>& st, const Counts& x) {
  obs(st.total_accesses());
  obs(st.total_hits());
  CHECK(st.total_accesses() == x.hits + x.misses, "the number of accesses is wrong");
  CHECK(st.total_hits() == x.hits, "the number of hits is wrong");
  CHECK(st.total_misses() == x.misses, "the number of misses is wrong");
  CHECK(st.number_of_monitored_keys() == (size_t)x.nk, "the number of monitored keys is wrong");
  for (int i = 0; i < x.nk; i++) {
    CHECK(st.is_monitoring(x.key[i]), "a monitored key is forgotten");
    CHECK(st.hits_for(x.key[i]) == x.h[i], "the hits of a monitored key are wrong");
    CHECK(st.misses_for(x.key[i]) == x.m[i], "the misses of a monitored key are wrong");
    CHECK(st.accesses_for(x.key[i]) == x.h[i] + x.m[i], "the accesses of a monitored key are wrong");
  }
}
// Starts monitoring in one of the documented ways.
template <class C>
static void start(C& c, Counts& x, uint32_t form) {
  switch (form) {
    case 0: c.monitor(); break;
    case 1: { int k = sym_int("monitored"); c.monitor(k); x.monitor(k); break; }
    case 2: { int k = sym_int("monitored"); int l = sym_int("monitored"); c.monitor(k, l); x.monitor(k); x.monitor(l); break; }
    case 3: { int k = sym_int("monitored"); auto p = std::make_shared<LRU::Statistics<int>>(k); c.monitor(p); x.monitor(k); break; }
    case 4: {
      int k = sym_int("monitored");
      auto p = std::make_shared<LRU::Statistics<int>>();
      p->monitor(k);
      c.monitor(std::move(p));
      x.monitor(k);
      break;
    }
    case 5: {
      std::vector<int> v;
      v.push_back(sym_int("monitored"));
      v.push_back(sym_int("monitored"));
      c.monitor(v);
      x.monitor(v[0]);
      x.monitor(v[1]);
      break;
    }
  }
}

// In the larger scenarios the monitored key is 0 (all other keys are arbitrary).
template <class S, uint32_t Ops>
static void history(int n, int k, uint32_t forms, bool zero = false) {
  S s = S::any();
  s.prestate(n);
  if (sym_bool("lookup_before")) s.template step<O_CONTAINS | O_FIND>();
  s.nlog = 0;
  Counts x;
  if (zero) { s.c.monitor(0); x.monitor(0); }
  else start(s.c, x, choice(forms, "form"));
  CHECK(s.c.is_monitoring(), "is_monitoring is false");
  for (int i = 0; i < k; i++) s.template step<Ops>();
  drain(s, x);
  const auto& cc = s.c;
  compare(s.c.stats(), x);
  compare(cc.stats(), x);
  compare(*s.c.shared_stats(), x);
  s.verify();
  reach("end");
}
constexpr uint32_t SILENT = O_INSERT | O_EMPLACE | O_PIECEWISE | ERASES | O_ERASE_END | O_CAPACITY | O_SHRINK | O_CLEAR | O_QUERY | O_RANGE | O_RRANGE | O_LIST | O_ASSIGN_RANGE;
constexpr uint32_t CORE = LOOKUPS | O_INSERT | O_ERASE;
// any capacity, up to 2 entries, monitoring one or no key, 2 (3) operations out of all lookups, insert, erase
ENTRY(core) { history<U<>, CORE>(2, 2, 2, TIER(true, false)); }
// every way to start monitoring, 0 to 2 monitored keys (perhaps equal), any lookup
ENTRY(forms) { history<U<>, LOOKUPS>(TIER(1, 2), TIER(1, 2), 6); }
// operations that must not count anything, and a lookup
ENTRY(silent) { history<U<>, SILENT | O_CONTAINS | O_ASSIGN>(2, TIER(1, 2), 1); }
// lookups in a row (the last-accessed shortcut), one monitored key
ENTRY(shortcut) { history<U<>, LOOKUPS3 | O_LOOKUPC>(1, TIER(3, 4), 2, true); }
// timed: expired keys are misses, wherever they are found expired
ENTRY(timed) { history<T<>, CORE>(TIER(1, 2), 2, 2, TIER(true, false)); }
// timed: operations that must not count
ENTRY(timed_silent) { history<T<>, SILENT | O_CLEAR_EXPIRED | O_LOOKUP>(2, TIER(1, 2), 1); }
// two hash values
ENTRY(bits) { history<U<HBit>, CORE>(TIER(1, 2), 2, 2, true); }
// timed, the same key looked up 3 (4) times at different times
ENTRY(timed_repeat) {
  T<> s(2, any_ttl());
  int k = sym_int("key");
  s.insert(k, 1);
  Counts x;
  s.c.monitor(k);
  x.monitor(k);
  for (int i = 0; i < TIER(3, 4); i++) {
    s.tick();
    s.lookup(1u << nth_bit(LOOKUPS, choice(__builtin_popcount(LOOKUPS), "lookup")), k);
  }
  drain(s, x);
  compare(s.c.stats(), x);
  reach("end");
}
// Two caches share one statistics object.
template <class S1, class S2>
static void shared() {
  S1 s = S1::any();
  S2 t = S2::any();
  s.prestate(1);
  t.prestate(1);
  Counts x;
  int k = 0;
  auto st = std::make_shared<LRU::Statistics<int>>(k);
  x.monitor(k);
  s.c.monitor(st);
  t.c.monitor(s.c.shared_stats());
  s.nlog = t.nlog = 0;
  for (int i = 0; i < 2; i++) {
    if (sym_bool("second")) t.template step<O_CONTAINS | O_LOOKUPC | O_INSERT>();
    else s.template step<O_CONTAINS | O_LOOKUPC | O_INSERT>();
    drain(s, x);
    drain(t, x);
  }
  compare(*st, x);
  compare(s.c.stats(), x);
  compare(t.c.stats(), x);
  if (sym_bool("one_stops")) {
    s.c.stop_monitoring();
    s.template step<O_FIND>();
    t.template step<O_FIND>();
    drain(t, x);
    compare(*st, x);
  } else if (sym_bool("one_dies")) {
    s.own.reset();
    t.template step<O_FIND | O_LOOKUP>();
    drain(t, x);
    compare(*st, x);
  }
  reach("end");
}
// two caches with up to 1 entry each, 2 operations on either, one stops monitoring or dies
ENTRY(shared_u) { shared<U<>, U<>>(); }
// a timed and an untimed cache share their statistics
ENTRY(shared_mixed) { shared<U<>, T<>>(); }
// monitoring starts, stops, starts again with other statistics
ENTRY(stop) {
  U<> s = U<>::any();
  s.prestate(2);
  s.nlog = 0;
  Counts x;
  auto st = std::make_shared<LRU::Statistics<int>>();
  s.c.monitor(st);
  s.step<LOOKUPS3>();
  drain(s, x);
  s.c.stop_monitoring();
  CHECK(!s.c.is_monitoring(), "is_monitoring after stop_monitoring");
  bool thrown = false;
  try { s.c.stats(); } catch (const LRU::Error::NotMonitoring&) { thrown = true; }
  CHECK(thrown, "stats() of a cache that is not monitored does not throw");
  thrown = false;
  try { static_cast<const U<>::Cache&>(s.c).stats(); } catch (const LRU::Error::NotMonitoring&) { thrown = true; }
  CHECK(thrown, "stats() of a const cache that is not monitored does not throw");
  s.step<LOOKUPS>();
  s.nlog = 0;
  compare(*st, x);
  Counts y;
  start(s.c, y, choice(2, "form"));
  s.step<O_CONTAINS | O_LOOKUP>();
  drain(s, y);
  compare(*st, x);
  compare(s.c.stats(), y);
  reach("end");
}
// a key that is monitored only later counts from then on
ENTRY(later) {
  U<> s = U<>::any();
  s.prestate(1);
  s.nlog = 0;
  Counts x;
  s.c.monitor();
  s.step<LOOKUPS3>();
  drain(s, x);
  int k = sym_int("monitored");
  s.c.stats().monitor(k);
  x.monitor(k);
  s.step<LOOKUPS3 | O_INSERT>();
  s.step<LOOKUPS3>();
  drain(s, x);
  compare(s.c.stats(), x);
  reach("end");
}
// time passes during a lookup: still one access, and a hit exactly if it was served
ENTRY(passing_time) {
  T<> s(2, any_ttl());
  auto& c = s.c;
  const auto& cc = s.c;
  int k = sym_int("key");
  __sym_tick_ns = (int64_t)__sym_var(6, "passing");
  c.insert(k, 5);
  c.monitor(k);
  Counts x;
  x.monitor(k);
  for (int i = 0; i < 2; i++) {
    s.tick();
    bool served = false;
    switch (choice(6, "lookup")) {
      case 0: served = cc.contains(k); break;
      case 1: served = c.find(k) != c.end(); break;
      case 2: served = cc.find(k) != cc.end(); break;
      case 3: try { obs(c.lookup(k)); served = true; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      case 4: try { obs(cc.lookup(k)); served = true; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      case 5: try { obs(c[k]); served = true; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
    }
    x.add(k, served);
    compare(c.stats(), x);
  }
  reach("end");
}

// ---------------------------------------------------------------- long histories

template <class S>
static void repeated(int before, int times) {
  S s = S::any();
  s.prestate(before);
  s.nlog = 0;
  Counts x;
  const int k = sym_int("monitored");
  s.c.monitor(k);
  x.monitor(k);
  pump<S, O_INSERT | LOOKUPS3 | O_LOOKUPC, LOOKUPS3 | O_LOOKUPC | O_ERASE>(s, times, [&](S& t) { drain(t, x); });
  compare(s.c.stats(), x);
  reach("end");
}
// any capacity, up to 1 entry, one monitored key, then 40 (timed: 16) times the same two operations (at least one lookup) with the same two arbitrary keys
ENTRY(repeated_u) { repeated<U<>>(1, 40); }
ENTRY(repeated_timed) { repeated<T<>>(0, 16); }
template <class S>
static void after_many() {
  const Size z = any_size();
  Sequence next = any_sequence();
  S s(z.cap, z.ttl);
  busy(s, next, 100, z.keys);
  Counts x;
  std::vector<int> keys;
  for (int i = 0; i < 36; i++) {
    keys.push_back(i * 2);
    x.monitor(i * 2);
  }
  s.c.monitor(keys);
  s.nlog = 0;
  busy(s, next, TIER(500, 1500), z.keys, [&](S& t) { drain(t, x); });
  compare(s.c.stats(), x);
  s.tick();
  s.perform(1u << nth_bit(LOOKUPS3 | O_INSERT | O_ERASE, choice(5, "operation")));
  drain(s, x);
  compare(s.c.stats(), x);
  reach("end");
}
// 36 monitored keys, 500 (1500) fixed operations in a cache of capacity 20 or 150, then one arbitrary operation
ENTRY(after_many_u) { after_many<U<HLow>>(); }
ENTRY(after_many_timed) { after_many<T<HLow>>(); }
template <class S>
static void burst() {
  Counts x;
  x.monitor(5);
  x.monitor(6);
  int n = 0;
  bool started = false;
  bursts<S>(BURST, LAST3, [&](S& t) {
    if (!started) {  // the first operation is not monitored
      t.c.monitor(5, 6);
      started = true;
      t.nlog = 0;
      return;
    }
    drain(t, x);
    if (++n % 32 == 0 || n >= BURST) compare(t.c.stats(), x);
  });
}
// 1100 (20000) times one of 13 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure; two monitored keys
ENTRY(bursts_u) { burst<U<HLow>>(); }
ENTRY(bursts_timed) { burst<T<HLow>>(); }
// 66000 lookups of a monitored key: hits, misses or both
ENTRY(many) {
  U<> s(2);
  auto& c = s.c;
  const auto& cc = c;
  c.insert(1, 1);
  c.monitor(1, 2);
  Counts x;
  x.monitor(1);
  x.monitor(2);
  const uint32_t which = choice(3, "kind");
  for (int i = 0; i < 66000; i++) {
    const int k = which == 0 || (which == 2 && i % 3) ? 1 : 2;
    x.add(k, i % 4 ? c.contains(k) : cc.find(k) != cc.end());
  }
  const int k = sym_int("key");
  x.add(k, cc.contains(k));
  compare(c.stats(), x);
  reach("end");
}
