// C27: caches do not influence one another.
#define OWN (G_ALL)
#define MODEL_MAX 200
#include "long.hpp"

// Callbacks of two caches count into two counters each.
struct Calls { int hits = 0, misses = 0; };
template <class S>
struct Watched {
  S& s;
  std::shared_ptr<Calls> calls = std::make_shared<Calls>();
  int h = 0, m = 0;
  size_t sh = 0, sm = 0;
  bool monitored;
  explicit Watched(S& s_) : s(s_), monitored(false) {
    auto c = calls;
    s.c.hit_callback([c](auto&, auto&) { c->hits++; });
    s.c.miss_callback([c](auto&) { c->misses++; });
    s.nlog = 0;
  }
  void monitor() {
    s.c.monitor();
    monitored = true;
  }
  void check() {
    for (int i = 0; i < s.nlog; i++) {
      (s.log[i].hit ? h : m)++;
      if (monitored) (s.log[i].hit ? sh : sm)++;
    }
    s.nlog = 0;
    CHECK(calls->hits == h && calls->misses == m, "a lookup in one cache calls the callbacks of another, or not its own");
    CHECK(s.c.is_monitoring() == monitored, "monitoring one cache starts or stops monitoring another");
    if (monitored) CHECK(s.c.stats().total_hits() == sh && s.c.stats().total_misses() == sm, "lookups in one cache are counted for another");
  }
};
template <class A, class B, uint32_t OpsA, uint32_t OpsB>
static void interleaved(int na, int nb, int steps) {
  A a = A::any();
  B b = B::any();
  a.prestate(na);
  b.prestate(nb);
  Watched<A> wa(a);
  Watched<B> wb(b);
  const int monitored = choice(3, "monitored");
  if (monitored) wa.monitor();
  if (monitored == 2) wb.monitor();
  for (int i = 0; i < steps; i++) {
    if (sym_bool("second")) b.template step<OpsB>();
    else a.template step<OpsA>();
    wa.check();
    wb.check();
  }
  a.verify();
  b.verify();
  a.verify_unordered();
  b.verify_unordered();
  // each still works: a lookup, an eviction
  const int k = sym_int("key");
  b.lookup(O_CONTAINS, k);
  a.lookup(O_LOOKUPC, k);
  wa.check();
  wb.check();
  a.verify();
  b.verify();
  reach("end");
}
constexpr uint32_t OPS = LOOKUPS3 | O_LOOKUPC | O_INSERT | O_EMPLACE | O_ERASE | O_ERASE_O | O_CAPACITY | O_CLEAR | O_ASSIGN;
constexpr uint32_t FEW = O_CONTAINS | O_FIND | O_INSERT | O_ERASE;
// two caches of the same type, any capacities, up to 1 (2) entries, 2 operations on either, with callbacks and statistics
ENTRY(same_u) { interleaved<U<>, U<>, OPS, OPS>(1, TIER(1, 2), 2); }
// 3 operations of a few kinds
ENTRY(three_u) { interleaved<U<>, U<>, FEW, FEW>(1, 1, 3); }
ENTRY(same_t) { interleaved<T<>, T<>, FEW | O_CLEAR_EXPIRED, FEW>(1, 1, 2); }
// a timed and an untimed cache
ENTRY(mixed) { interleaved<U<>, T<>, OPS, FEW | O_CAPACITY>(1, 1, 2); }
// two entries each
ENTRY(two) { interleaved<U<>, U<>, FEW, O_CONTAINS | O_INSERT>(2, 2, TIER(1, 2)); }

// A cache that was created, used and destroyed leaves nothing behind.
template <class S>
static void afterwards() {
  S a = S::any();
  a.prestate(TIER(1, 2));
  a.nlog = 0;
  Watched<S> wa(a);
  wa.monitor();
  if (sym_bool("lookup before")) a.template step<LOOKUPS3>();
  {
    S b = S::any();
    b.prestate(TIER(1, 2));
    Watched<S> wb(b);
    if (sym_bool("both monitored")) wb.monitor();
    b.template step<OPS>();
    wb.check();
    wa.check();
    a.verify();
    b.verify();
  }
  a.template step<OPS>();
  wa.check();
  a.verify();
  S c = S::any();
  CHECK(c.c.size() == 0 && c.c.is_empty() && !c.c.is_monitoring() && c.c.hit_callbacks().empty() && c.c.begin() == c.c.end() && c.c.ordered_begin() == c.c.ordered_end(),
        "a new cache is not empty");
  c.template step<FEW>();
  c.verify();
  a.verify();
  reach("end");
}
// a cache with up to 1 (2) entries; another comes, is used and goes; a third starts empty
ENTRY(afterwards_u) { afterwards<U<>>(); }
ENTRY(afterwards_t) { afterwards<T<>>(); }

// Statistics objects, wrapped functions and iterators of one cache are not those of another.
// two caches with the same 1 to 2 keys
ENTRY(equal_keys) {
  U<> a(3), b(3);
  const int n = 1 + choice(2, "keys");
  for (int i = 0; i < n; i++) {
    const int k = sym_int("key");
    for (int j = 0; j < a.m.n; j++) ASSUME(a.m.e[j].key != k);
    a.insert(k, sym_int("value"));
    b.insert(k, sym_int("value"));
  }
  for (int i = 0; i < 2; i++) {
    auto& s = sym_bool("second") ? b : a;
    s.step<OPS>();
  }
  a.verify();
  b.verify();
  const int k = sym_int("key");
  a.lookup(O_INDEX, k);
  b.lookup(O_INDEXC, k);
  CHECK((a.c.find(k) == a.c.end()) == (a.m.find(k) < 0) && (b.c.find(k) == b.c.end()) == (b.m.find(k) < 0), "a key of one cache is found in another");
  reach("end");
}
// Wrapped functions of the same type and with the same arguments have caches of their own.
// two functions of one type, 3 (4) calls with arbitrary arguments
ENTRY(wrapped) {
  int calls[2] = {0, 0};
  int which = 0;
  auto make = [&](int id) { return LRU::wrap([&calls, id](int x) { calls[id]++; return x * 2 + id; }, 2); };
  auto f = make(0);
  auto g = make(1);
  Model m[2];
  int n[2] = {0, 0};
  m[0].cap = m[1].cap = 2;
  for (int i = 0; i < TIER(3, 4); i++) {
    which = choice(2, "function");
    const int x = (int)(__sym_var(8, "argument"));
    const int r = which ? g(x) : f(x);
    CHECK(r == x * 2 + which, "a wrapped function returns the result of another");
    if (m[which].lookup(x) < 0) {
      m[which].insert(x, r);
      n[which]++;
    }
    CHECK(calls[0] == n[0] && calls[1] == n[1], "a call of one wrapped function changes when another calls the original");
  }
  reach("end");
}

// Callbacks registered on, and monitoring of, a cache and its copy after the copy was made.
template <class S>
static void copies() {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(1);
  s.nlog = 0;
  C& a = s.c;
  int calls[3] = {0, 0, 0};        // of the callback that was there before, and of those registered on each later
  int expected[3] = {0, 0, 0};
  const int kind = choice(3, "kind of callback");  // hit, miss, access
  auto add = [&](C& c, int which) {
    int* const n = &calls[which];
    if (kind == 0) c.hit_callback([n](const int&, const int&) { ++*n; });
    else if (kind == 1) c.miss_callback([n](const int&) { ++*n; });
    else c.access_callback([n](const int&, bool) { ++*n; });
  };
  auto count = [&](C& c) { return kind == 0 ? c.hit_callbacks().size() : kind == 1 ? c.miss_callbacks().size() : c.access_callbacks().size(); };
  const bool before = sym_bool("callback before");
  if (before) add(a, 0);
  std::unique_ptr<C> b;
  if (sym_bool("assigned")) { b.reset(new C(a)); *b = a; }
  else b.reset(new C(static_cast<const C&>(a)));
  CHECK(count(*b) == count(a), "a copy does not have the callbacks of the original");
  bool own[2] = {false, false}, gone[2] = {false, false}, mon[2] = {false, false};
  size_t acc[2] = {0, 0};
  for (int i = 0; i < 2; i++) {
    const int w = choice(2, "which");
    C& c = w ? *b : a;
    switch (choice(3, "change")) {
      case 0: if (own[w]) ASSUME(false); add(c, 1 + w); own[w] = true; break;
      case 1: kind == 0 ? c.clear_hit_callbacks() : kind == 1 ? c.clear_miss_callbacks() : c.clear_all_callbacks(); gone[w] = true; own[w] = false; break;
      case 2: c.monitor(); mon[w] = true; acc[w] = 0; break;
    }
  }
  const int k = sym_int("key");
  for (int w = 0; w < 2; w++) {
    C& c = w ? *b : a;
    CHECK(count(c) == (size_t)((before && !gone[w]) + own[w]), "a cache has the callbacks of its copy");
    CHECK(c.is_monitoring() == mon[w], "a cache is monitored with its copy");
    const bool hit = c.contains(k);
    acc[w]++;
    if (kind == 2 || hit == (kind == 0)) {
      if (before && !gone[w]) expected[0]++;
      if (own[w]) expected[1 + w]++;
    }
    for (int j = 0; j < 3; j++) CHECK(calls[j] == expected[j], "a lookup calls a callback registered on a copy, or not its own");
  }
  for (int w = 0; w < 2; w++) if (mon[w]) CHECK((w ? *b : a).stats().total_accesses() == acc[w], "a lookup is counted for the copy");
  reach("end");
}
// one callback of each kind before copying, then 2 of: registering, clearing, monitoring on either
ENTRY(copies_u) { copies<U<>>(); }
ENTRY(copies_t) { copies<T<>>(); }

// ---------------------------------------------------------------- long histories

template <class A, class B>
static void long_pair() {
  Sequence next = any_sequence();
  const Size z = any_size();
  A a(z.cap, z.ttl);
  B b(z.big ? 30 : 15, 200);
  Watched<A> wa(a);
  Watched<B> wb(b);
  if (sym_bool("monitored")) wa.monitor();
  for (int i = 0; i < TIER(20, 60); i++) {
    busy(a, next, 15, z.keys, [&](A&) { wa.check(); });
    busy(b, next, 10, 40, [&](B&) { wb.check(); });
  }
  b.verify();
  b.tick();
  if (sym_bool("second")) b.perform(1u << nth_bit(FEW, choice(4, "operation")));
  else a.perform(1u << nth_bit(FEW, choice(4, "operation")));
  wa.check();
  wb.check();
  a.verify();
  b.verify();
  a.verify_unordered();
  b.verify_unordered();
  reach("end");
}
// 500 (1500) fixed operations on two caches in turn, then an arbitrary one on either
ENTRY(long_same) { long_pair<U<HLow>, U<HLow>>(); }
ENTRY(long_mixed) { long_pair<U<HLow>, T<HLow>>(); }
ENTRY(long_timed) { long_pair<T<HLow>, T<HLow>>(); }
