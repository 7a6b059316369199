// C21: the statistics object does exact arithmetic per key.
#define OWN (G_STATS)
#include "hist.hpp"

using St = LRU::Statistics<int>;
// What the statistics have to say.
struct Counts {
  static constexpr int MAXK = 60;
  size_t hits = 0, misses = 0;
  int nk = 0;
  int key[MAXK];
  size_t h[MAXK], m[MAXK];
  int find(int k) const {
    for (int i = 0; i < nk; i++) if (key[i] == k) return i;
    return -1;
  }
  void monitor(int k) {
    if (find(k) >= 0) return;
    key[nk] = k;
    h[nk] = m[nk] = 0;
    nk++;
  }
  bool unmonitor(int k) {
    int i = find(k);
    if (i < 0) return false;
    nk--;
    key[i] = key[nk];
    h[i] = h[nk];
    m[i] = m[nk];
    return true;
  }
  void add(int k, bool hit) {
    (hit ? hits : misses)++;
    int i = find(k);
    if (i >= 0) (hit ? h[i] : m[i])++;
  }
};
template <class F>
static bool unmonitored(F&& f) {
  try { f(); } catch (const LRU::Error::UnmonitoredKey&) { return true; }
  return false;
}
static void ratios(const St& st) {
  if (st.total_accesses() == 0) return;
  const double a = (double)st.total_accesses(), h = (double)st.total_hits(), m = (double)st.total_misses();
  const double hr = st.hit_rate(), mr = st.miss_rate();
  CHECK(hr >= 0 && hr <= 1 && mr >= 0 && mr <= 1, "a rate is not in [0, 1]");
  const double e = 1e-9;
  CHECK(hr - h / a < e && h / a - hr < e, "the hit rate is wrong");
  CHECK(mr - m / a < e && m / a - mr < e, "the miss rate is wrong");
  CHECK(hr + mr - 1 < e && 1 - hr - mr < e, "the rates do not sum to 1");
}
static void key_agrees(const St& st, const Counts& x, int k) {
  const int i = x.find(k);
  CHECK(st.is_monitoring(k) == (i >= 0), "is_monitoring is wrong");
  if (i >= 0) {
    obs(st.hits_for(k));
    CHECK(st.hits_for(k) == x.h[i], "the hits of a monitored key are wrong");
    CHECK(st.misses_for(k) == x.m[i], "the misses of a monitored key are wrong");
    CHECK(st.accesses_for(k) == x.h[i] + x.m[i], "the accesses of a monitored key are wrong");
    CHECK(st.stats_for(k).hits == x.h[i] && st.stats_for(k).misses == x.m[i], "the statistics of a monitored key are wrong");
    CHECK(st[k].accesses() == x.h[i] + x.m[i], "the statistics of a monitored key are wrong");
  } else {
    CHECK(unmonitored([&] { st.hits_for(k); }), "hits_for does not throw for an unmonitored key");
    CHECK(unmonitored([&] { st.misses_for(k); }), "misses_for does not throw for an unmonitored key");
    CHECK(unmonitored([&] { st.accesses_for(k); }), "accesses_for does not throw for an unmonitored key");
    CHECK(unmonitored([&] { st.stats_for(k); }), "stats_for does not throw for an unmonitored key");
    CHECK(unmonitored([&] { st[k]; }), "operator[] does not throw for an unmonitored key");
  }
}
static void agrees(const St& st, const Counts& x) {
  obs(st.total_accesses());
  obs(st.total_hits());
  CHECK(st.total_accesses() == x.hits + x.misses, "the number of accesses is wrong");
  CHECK(st.total_hits() == x.hits, "the number of hits is wrong");
  CHECK(st.total_misses() == x.misses, "the number of misses is wrong");
  CHECK(st.number_of_monitored_keys() == (size_t)x.nk, "the number of monitored keys is wrong");
  CHECK(st.is_monitoring_keys() == (x.nk > 0), "is_monitoring_keys is wrong");
  for (int i = 0; i < x.nk; i++) key_agrees(st, x, x.key[i]);
  ratios(st);
}
// One operation on the statistics, or a lookup through a cache that uses them.
template <class C>
static void step(St& st, C& c, Counts& x, int stored) {
  int k = sym_int("key");
  switch (choice(7, "operation")) {
    case 0: st.monitor(k); x.monitor(k); break;
    case 1: { bool t = unmonitored([&] { st.unmonitor(k); }); CHECK(t != x.unmonitor(k), "unmonitor throws at the wrong time"); break; }
    case 2: st.unmonitor_all(); x.nk = 0; break;
    case 3: {
      bool t = unmonitored([&] { st.reset_key(k); });
      int i = x.find(k);
      CHECK(t == (i < 0), "reset_key throws at the wrong time");
      if (i >= 0) x.h[i] = x.m[i] = 0;
      break;
    }
    case 4:
      st.reset_all();
      for (int i = 0; i < x.nk; i++) x.h[i] = x.m[i] = 0;
      x.hits = st.total_hits();  // whether the totals are reset too is left open
      x.misses = st.total_accesses() - x.hits;
      break;
    case 5: {
      bool hit = c.contains(k);
      ASSUME(hit == (k == stored));
      x.add(k, hit);
      break;
    }
    case 6: {
      bool hit = c.find(k) != c.end();
      ASSUME(hit == (k == stored));
      x.add(k, hit);
      break;
    }
  }
}
template <class C>
static void history(C& c, int steps, int forms) {
  Counts x;
  int stored = sym_int("stored");
  c.insert(stored, 1);
  std::shared_ptr<St> st;
  switch (choice(forms, "constructor")) {
    case 0: st = std::make_shared<St>(); break;
    case 1: { int k = sym_int("monitored"); st = std::make_shared<St>(k); x.monitor(k); break; }
    case 2: {
      std::vector<int> v;
      v.push_back(sym_int("monitored"));
      v.push_back(sym_int("monitored"));
      st = std::make_shared<St>(v.begin(), v.end());
      x.monitor(v[0]);
      x.monitor(v[1]);
      break;
    }
    case 3: {
      int k = sym_int("monitored");
      int l = sym_int("monitored");
      if (sym_bool("list")) st = std::make_shared<St>(St::InitializerList{k, l});
      else st = std::make_shared<St>(k, l);
      x.monitor(k);
      x.monitor(l);
      break;
    }
  }
  c.monitor(st);
  for (int i = 0; i < steps; i++) step(*st, c, x, stored);
  agrees(*st, x);
  int k = sym_int("key");
  key_agrees(*st, x, k);
  agrees(c.stats(), x);
  reach("end");
}
// up to 1 monitored key, 2 operations out of monitor, unmonitor, unmonitor_all, reset_key, reset_all and lookups
ENTRY(untimed) { LRU::Cache<int, int, HConst> c(2); history(c, 2, 2); }
ENTRY(timed) { LRU::TimedCache<int, int, NS, HConst> c(NS(1000), 2); history(c, 2, TIER(1, 2)); }
// every constructor, up to 2 monitored keys, 1 (2) operations
ENTRY(constructors) { LRU::Cache<int, int, HConst> c(2); history(c, TIER(1, 2), 4); }
// 3 operations on initially empty statistics
ENTRY_T(three) { LRU::Cache<int, int, HConst> c(2); history(c, 3, 1); }
// one monitored key and 4 (5) operations on it
ENTRY(repeated) {
  LRU::Cache<int, int, HConst> c(2);
  St st;
  auto p = std::make_shared<St>();
  Counts x;
  const int k = 3;
  const int other = sym_int("other");
  c.insert(k, 1);
  c.monitor(p);
  for (int i = 0; i < TIER(5, 6); i++) {
    switch (choice(6, "operation")) {
      case 0: p->monitor(k); x.monitor(k); break;
      case 1: ASSUME(x.find(k) >= 0); p->unmonitor(k); x.unmonitor(k); break;
      case 2: ASSUME(x.find(k) >= 0); p->reset_key(k); { int j = x.find(k); x.h[j] = x.m[j] = 0; } break;
      case 3: { bool hit = c.contains(k); x.add(k, hit); break; }
      case 4: if (sym_bool("insert")) c.insert(k, 2); else c.erase(k); break;
      case 5: { bool hit = c.contains(other); x.add(other, hit); break; }
    }
  }
  agrees(*p, x);
  key_agrees(*p, x, k);
  key_agrees(*p, x, other);
  reach("end");
}
// one statistics object shared by two caches, copied and moved
ENTRY(shared) {
  LRU::Cache<int, int, HConst> a(2), b(2);
  int k = sym_int("monitored");
  auto p = std::make_shared<St>(k);
  Counts x;
  x.monitor(k);
  a.monitor(p);
  b.monitor(p);
  int s = sym_int("stored");
  a.insert(s, 1);
  for (int i = 0; i < 3; i++) {
    int l = sym_int("key");
    auto& c = sym_bool("second") ? b : a;
    bool hit = c.contains(l);
    x.add(l, hit);
  }
  agrees(*p, x);
  agrees(a.stats(), x);
  agrees(b.stats(), x);
  St q(*p);
  agrees(q, x);
  St r(std::move(q));
  agrees(r, x);
  St t;
  t = r;
  agrees(t, x);
  t.monitor(sym_int("key"));
  agrees(r, x);
  agrees(*p, x);
  reach("end");
}
// 0 to 8 (16) hits and misses in any number, total and per key
ENTRY(rates) {
  LRU::Cache<int, int, HConst> c(2);
  auto p = std::make_shared<St>(1);
  c.insert(1, 1);
  c.monitor(p);
  Counts x;
  x.monitor(1);
  const int n = TIER(9, 17);
  int h = choice(n, "hits"), m = choice(n, "misses"), o = choice(3, "others");
  for (int i = 0; i < h; i++) x.add(1, c.contains(1));
  c.erase(1);
  for (int i = 0; i < m; i++) x.add(1, c.contains(1));
  for (int i = 0; i < o; i++) x.add(2, c.contains(2));
  CHECK(p->hits_for(1) == (size_t)h && p->misses_for(1) == (size_t)m, "the counts of a monitored key are wrong");
  agrees(*p, x);
  reach("end");
}
// 66000 accesses: hits, misses or both
ENTRY(many) {
  LRU::Cache<int, int, HConst> c(2);
  auto p = std::make_shared<St>(1, 2);
  c.insert(1, 1);
  c.monitor(p);
  Counts x;
  x.monitor(1);
  x.monitor(2);
  const int n = 66000;
  const uint32_t which = choice(3, "kind");
  for (int i = 0; i < n; i++) {
    const int k = which == 0 || (which == 2 && i % 3) ? 1 : 2;
    x.add(k, c.contains(k));
  }
  int k = sym_int("key");
  x.add(k, c.contains(k));
  agrees(*p, x);
  reach("end");
}
// the statistics of a single key, any 64-bit counts
ENTRY(key_statistics) {
  size_t h = sym_size("hits"), m = sym_size("misses");
  LRU::KeyStatistics s(h, m), z;
  CHECK(s.hits == h && s.misses == m, "KeyStatistics stores other counts");
  CHECK(s.accesses() == h + m, "accesses is not hits plus misses");
  CHECK(z.hits == 0 && z.misses == 0 && z.accesses() == 0, "a new KeyStatistics is not zero");
  LRU::KeyStatistics c(s);
  s.reset();
  CHECK(s.hits == 0 && s.misses == 0 && s.accesses() == 0, "reset does not zero the counts");
  CHECK(c.accesses() == h + m, "reset changes a copy");
  reach("end");
}
// 40 monitored keys, 200 fixed accesses, then 1 (2) arbitrary operations
ENTRY(crowd) {
  LRU::Cache<int, int, HConst> c(2);
  auto p = std::make_shared<St>();
  Counts x;
  const int stored = 5;
  c.insert(stored, 1);
  c.monitor(p);
  for (int i = 0; i < 40; i++) {
    p->monitor(i);
    x.monitor(i);
  }
  for (int i = 0; i < 200; i++) {
    const int k = i % 3 ? (i * 7) % 45 : stored;
    x.add(k, c.contains(k));
  }
  agrees(*p, x);
  for (int i = 0; i < TIER(1, 2); i++) step(*p, c, x, stored);
  x.add(6, c.contains(6));
  agrees(*p, x);
  reach("end");
}
