// C28: lookups are recorded in exactly the statistics object the cache was last told to use.
#define OWN (G_STATS)
#define MODEL_MAX 200
#include "long.hpp"
#include <string>

using St = LRU::Statistics<int>;
using P = std::shared_ptr<St>;
// What is known about one statistics object.
struct Rec {
  size_t h = 0, m = 0;
  bool one = false;  // one key is monitored
  int key = 0;
  size_t kh = 0, km = 0;
};
static void compare(const St& st, const Rec& r) {
  obs(st.total_accesses());
  CHECK(st.total_hits() == r.h && st.total_misses() == r.m && st.total_accesses() == r.h + r.m, "a statistics object does not hold the lookups made while it was used, and no others");
  CHECK(st.number_of_monitored_keys() == r.one, "the monitored keys change");
  if (r.one) CHECK(st.is_monitoring(r.key) && st.hits_for(r.key) == r.kh && st.misses_for(r.key) == r.km, "the counts of a monitored key are not those of its lookups");
}
template <class S>
static void not_monitoring(S& s) {
  auto& c = s.c;
  const auto& cc = c;
  CHECK(!cc.is_monitoring(), "is_monitoring is true for a cache that is not monitored");
  int thrown = 0;
  try { c.stats(); } catch (const LRU::Error::NotMonitoring&) { thrown++; }
  try { cc.stats(); } catch (const LRU::Error::NotMonitoring&) { thrown++; }
  CHECK(thrown == 2, "stats() of a cache that is not monitored does not throw NotMonitoring");
  CHECK(!c.shared_stats() && !cc.shared_stats(), "shared_stats() of a cache that is not monitored is not null");
}
template <class S>
static void monitoring(S& s, const P* expect) {
  auto& c = s.c;
  const auto& cc = c;
  CHECK(cc.is_monitoring(), "is_monitoring is false for a cache that is monitored");
  CHECK(&c.stats() == &cc.stats() && &c.stats() == c.shared_stats().get() && c.shared_stats() == cc.shared_stats(), "stats() and shared_stats() are different objects");
  if (expect) CHECK(c.shared_stats() == *expect, "the cache uses another statistics object than it was given");
}
// Statistics 0 and 1 are shared objects made outside; own[] are those the cache made.
template <class S>
struct Mon {
  static constexpr int N = 8;
  S& s;
  P& p0;
  P& p1;
  P st[N];      // every object that was ever used
  Rec rec[N];
  int n = 2, cur = -1;
  Mon(S& s_, P& a, P& b, int key) : s(s_), p0(a), p1(b) { st[0] = a; st[1] = b; rec[1].one = true; rec[1].key = key; }
  void lookups() {
    for (int i = 0; i < s.nlog; i++)
      if (cur >= 0) {
        Rec& r = rec[cur];
        (s.log[i].hit ? r.h : r.m)++;
        if (r.one) (s.log[i].hit ? r.kh : r.km) += s.log[i].key == r.key;
      }
    s.nlog = 0;
  }
  void fresh(const int* key = nullptr) {
    for (int i = 0; i < n; i++) CHECK(s.c.shared_stats() != st[i], "monitor() does not start a new statistics object");
    st[n] = s.c.shared_stats();
    cur = n++;
    if (key) { rec[cur].one = true; rec[cur].key = *key; }
    compare(*st[cur], rec[cur]);
  }
  void change(uint32_t op) {
    switch (op) {
      case 0: s.c.monitor(p0); cur = 0; break;
      case 1: { const P& q = p1; s.c.monitor(q); cur = 1; break; }
      case 2: { P q = p0; s.c.monitor(std::move(q)); cur = 0; break; }
      case 3: s.c.monitor(); fresh(); break;
      case 4: {
        int k = sym_int("monitored");
        s.c.monitor(k);
        fresh(&k);
        CHECK(s.c.stats().number_of_monitored_keys() == 1 && s.c.stats().is_monitoring(k), "monitor(key) does not monitor the key");
        break;
      }
      case 5: s.c.stop_monitoring(); cur = -1; break;
      case 6: {  // the statistics in use, once more
        if (cur < 0) ASSUME(false);
        s.c.monitor(s.c.shared_stats());
        break;
      }
      case 7: {  // no statistics
        P none;
        if (sym_bool("rvalue")) s.c.monitor(std::move(none));
        else s.c.monitor(static_cast<const P&>(none));
        cur = -1;
        break;
      }
    }
  }
  void check() {
    if (cur < 0) not_monitoring(s);
    else monitoring(s, &st[cur]);
    for (int i = 0; i < n; i++) compare(*st[i], rec[i]);
  }
  // The cache holds a reference exactly to the object in use.
  void references() {
    for (int i = 0; i < n; i++) {
      const long outside = 1 + (i == 0 ? 1 : i == 1 ? 1 : 0);
      CHECK(st[i].use_count() == outside + (i == cur), i == cur ? "the cache does not share the statistics object it uses" : "the cache still holds a statistics object it does not use any more");
    }
  }
};
constexpr uint32_t WORK = LOOKUPS | O_INSERT | O_EMPLACE | O_ERASE | O_ERASE_U | O_CAPACITY | O_SHRINK | O_CLEAR | O_LIST | O_ASSIGN_RANGE;
template <class S, uint32_t Ops>
static void lifecycle(int n, int changes, int steps) {
  S s = S::any();
  s.prestate(n);
  not_monitoring(s);
  s.nlog = 0;
  const int key = sym_int("monitored");
  P a = std::make_shared<St>(), b = std::make_shared<St>(key);
  Mon<S> m(s, a, b, key);
  for (int i = 0; i < changes; i++) {
    m.change(choice(8, "change"));
    m.check();
    for (int j = 0; j < steps; j++) {
      s.template step<Ops>();
      m.lookups();
    }
    m.check();
  }
  m.references();
  s.verify();
  reach("end");
}
// any capacity, up to 1 (2) entries; 2 changes out of monitor(shared pointer) of every value category and with a null pointer, monitor(), monitor(key), stop_monitoring, each followed by a lookup
ENTRY(lookups_u) { lifecycle<U<>, TIER(LOOKUPS3 | O_LOOKUPC, LOOKUPS)>(TIER(1, 2), 2, 1); }
ENTRY(lookups_t) { lifecycle<T<>, LOOKUPS3>(1, 2, 1); }
// 1 change followed by 1 to 2 operations of any kind
ENTRY(work_u) { lifecycle<U<>, WORK>(TIER(1, 2), 1, TIER(2, 1)); }
ENTRY(work_t) { lifecycle<T<>, (WORK & ~LOOKUPS) | LOOKUPS3 | O_CLEAR_EXPIRED>(1, 1, TIER(1, 2)); }
// a cache with one entry (up to 2); 3 changes and a lookup after each
ENTRY(many) {
  U<> s(2);
  s.prestate(TIER(1, 2), true);
  P a = std::make_shared<St>(), b = std::make_shared<St>(1);
  Mon<U<>> m(s, a, b, 1);
  for (int i = 0; i < 3; i++) {
    m.change(choice(8, "change"));
    s.perform(O_CONTAINS);
    m.lookups();
    m.check();
  }
  m.references();
  reach("end");
}
// Two caches and two statistics objects, in every combination.
template <class A, class B>
static void pair() {
  A s = A::any();
  B t = B::any();
  s.prestate(1);
  t.prestate(1);
  s.nlog = t.nlog = 0;
  P a = std::make_shared<St>(), b = std::make_shared<St>();
  Rec ra, rb;
  int us = -1, ut = -1;
  auto drain = [&](auto& x, int u) {
    for (int i = 0; i < x.nlog; i++) if (u >= 0) { Rec& r = u ? rb : ra; (x.log[i].hit ? r.h : r.m)++; }
    x.nlog = 0;
  };
  for (int i = 0; i < TIER(3, 4); i++) {
    switch (choice(6, "step")) {
      case 0: us = choice(2, "statistics"); s.c.monitor(us ? b : a); break;
      case 1: ut = choice(2, "statistics"); t.c.monitor(ut ? b : a); break;
      case 2: if (sym_bool("second")) { t.c.stop_monitoring(); ut = -1; } else { s.c.stop_monitoring(); us = -1; } break;
      case 3: s.template step<O_CONTAINS | O_FIND>(); drain(s, us); break;
      case 4: t.template step<O_CONTAINS | O_LOOKUPC>(); drain(t, ut); break;
      case 5: if (us < 0) ASSUME(false); else { t.c.monitor(s.c.shared_stats()); ut = us; } break;
    }
  }
  if (us < 0) not_monitoring(s);
  else monitoring(s, us ? &b : &a);
  if (ut < 0) not_monitoring(t);
  else monitoring(t, ut ? &b : &a);
  compare(*a, ra);
  compare(*b, rb);
  CHECK(a.use_count() == 1 + (us == 0) + (ut == 0) && b.use_count() == 1 + (us == 1) + (ut == 1), "a cache holds a statistics object it does not use, or does not hold the one it uses");
  reach("end");
}
// two caches, two statistics objects, 3 (4) steps: start, stop, share, look up
ENTRY(pair_u) { pair<U<>, U<>>(); }
ENTRY(pair_mixed) { pair<U<>, T<>>(); }
// One statistics object with many owners; they all see every lookup of every cache.
template <class A>
static void owners() {
  const int key = sym_int("monitored");
  P p = std::make_shared<St>(key);
  Rec r;
  r.one = true;
  r.key = key;
  const int kept = TIER(3, 1) * choice(TIER(3, 8), "kept");
  const int caches = 1 + choice(TIER(3, 4), "caches");
  std::vector<P> more;
  for (int i = 0; i < kept; i++) more.push_back(p);
  std::vector<std::unique_ptr<A>> all;
  for (int i = 0; i < caches; i++) {
    all.emplace_back(new A(2, A::timed ? 1000 : 0));
    all[i]->insert(i, 10 + i);
    all[i]->nlog = 0;
    if (i > 0 && i % 2 == 0) all[i]->c.monitor(all[i - 1]->c.shared_stats());
    else all[i]->c.monitor(p);
  }
  auto look = [&](A& a, int k) {
    const bool hit = a.c.contains(k);
    (hit ? r.h : r.m)++;
    if (k == key) (hit ? r.kh : r.km)++;
  };
  const int at = choice(caches, "cache");
  look(*all[at], sym_int("key"));
  look(*all[0], 0);
  auto& cc = all[at]->c;
  switch (choice(3, "access")) {
    case 0: obs(cc.stats().total_accesses()); break;
    case 1: obs(std::as_const(cc).stats().total_accesses()); break;
    case 2: obs((*cc.shared_stats()).total_accesses()); break;
  }
  look(*all[at], at);
  const int fate = choice(3, "fate");
  if (fate == 1) all[at]->c.stop_monitoring();
  if (fate == 2) more.clear();
  if (fate != 1) look(*all[at], sym_int("key"));
  for (int i = 0; i < caches; i++) {
    if (fate == 1 && i == at) not_monitoring(*all[i]);
    else monitoring(*all[i], &p);
  }
  compare(*p, r);
  CHECK(p.use_count() == 1 + (long)more.size() + caches - (fate == 1), "a cache holds a statistics object it does not use, or does not hold the one it uses");
  p->monitor(key == 5 ? 6 : 5);
  CHECK(p->is_monitoring(key) && p->number_of_monitored_keys() == 2, "monitoring one more key stops another");
  if (fate != 1) CHECK(all[at]->c.stats().is_monitoring(key == 5 ? 6 : 5), "the cache uses another statistics object than it was given");
  reach("end");
}
// 1 to 3 (4) caches and up to 6 (7) other owners of one statistics object with an arbitrary monitored key; lookups of arbitrary keys
ENTRY(owners_u) { owners<U<>>(); }
ENTRY(owners_t) { owners<T<>>(); }
// Keys to monitor are keys, whatever else their type could be taken for.
// strings: literals, const and other objects, lists, ranges and iterators; 1 to 3 keys
ENTRY(string_keys) {
  using SC = LRU::Cache<std::string, int>;
  SC c(3);
  std::string k1 = "first", k2 = "second key, longer than the small string buffer";
  const std::string k3 = "third";
  c.insert(k1, 1);
  std::vector<std::string> v{k1, k2};
  size_t n = 2;
  bool one = false;
  switch (choice(12, "form")) {
    case 0: c.monitor("first"); one = true; break;
    case 1: c.monitor("first", "third"); break;
    case 2: c.monitor("first", "second", "third"); n = 3; break;
    case 3: c.monitor(k1); one = true; break;
    case 4: c.monitor(k3); n = 1; break;
    case 5: c.monitor(k1, k3); break;
    case 6: c.monitor(std::string("first")); one = true; break;
    case 7: c.monitor(v); break;
    case 8: c.monitor(v.begin(), v.end()); break;
    case 9: { const std::vector<std::string> w{k1, k2}; c.monitor(w); break; }
    case 10: c.monitor(std::make_shared<LRU::Statistics<std::string>>("first", "third")); break;
    case 11: c.monitor(std::make_shared<LRU::Statistics<std::string>>(std::initializer_list<std::string>{k1, k2})); break;
  }
  if (one) n = 1;
  auto& st = c.stats();
  CHECK(st.number_of_monitored_keys() == n, "monitor does not monitor the given keys");
  const bool first = st.is_monitoring("first");
  CHECK(first == !(n == 1 && !one), "monitor does not monitor the given keys");
  const bool h = c.contains(choice(2, "looked up") ? k1 : k2);
  CHECK(st.total_accesses() == 1 && st.total_hits() == (h ? 1u : 0u), "a lookup is not counted");
  if (first) CHECK(st.hits_for("first") == (h ? 1u : 0u), "a lookup of a monitored key is not counted");
  reach("end");
}

// ---------------------------------------------------------------- long histories

template <class S>
static void long_lifecycle() {
  Sequence next = any_sequence();
  const Size z = any_size();
  S s(z.cap, z.ttl);
  const int key = 3;
  P a = std::make_shared<St>(), b = std::make_shared<St>(key);
  Mon<S> m(s, a, b, key);
  for (int i = 0; i < TIER(15, 40); i++) {
    const uint32_t op = next(m.n < Mon<S>::N - 1 ? 6 : 3);
    if (op == 4) m.change(3);
    else m.change(op);
    m.check();
    s.nlog = 0;
    busy(s, next, 20 + next(20), z.keys, [&](S&) { m.lookups(); });
    m.check();
  }
  m.change(choice(4, "change"));
  s.perform(1u << nth_bit(LOOKUPS3 | O_INSERT, choice(4, "operation")));
  m.lookups();
  m.check();
  m.references();
  reach("end");
}
// 15 (40) changes of the statistics in use with 20 to 40 fixed operations between, then an arbitrary change and operation
ENTRY(long_u) { long_lifecycle<U<HLow>>(); }
ENTRY(long_t) { long_lifecycle<T<HLow>>(); }
