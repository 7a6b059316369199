// C31: a cache holds one key and one value object per entry, and destroys what it no longer stores.
#define OWN (0u)
#define MODEL_MAX 200
#include "long.hpp"

// Objects that are counted, and of which it is known which numbers are alive.
template <int Which>
struct Counted {
  static int64_t live;
  int v;
  Counted(int x) : v(x) { live++; }
  Counted(const Counted& o) : v(o.v) { live++; }
  Counted(Counted&& o) noexcept : v(o.v) { live++; }
  Counted& operator=(const Counted& o) { v = o.v; return *this; }
  Counted& operator=(Counted&& o) noexcept { v = o.v; return *this; }
  ~Counted() { live--; }
  operator int() const { return v; }
  friend bool operator==(const Counted& a, const Counted& b) { return a.v == b.v; }
  friend bool operator!=(const Counted& a, const Counted& b) { return a.v != b.v; }
  friend bool operator==(const Counted& a, int b) { return a.v == b; }
};
template <int Which>
int64_t Counted<Which>::live = 0;
using CK = Counted<0>;
using CV = Counted<1>;
struct HK { size_t operator()(const CK&) const { return 0; } };
struct HKBit { size_t operator()(const CK& k) const noexcept { return (unsigned)k.v & 1; } };
struct HKLow { size_t operator()(const CK& k) const noexcept { return (unsigned)k.v & 7; } };
namespace std {
template <> struct hash<CK> { size_t operator()(const CK&) const { return 0; } };
}
template <class H = HK>
using UC = Sys<LRU::Cache<CK, CV, H>, false>;
template <class H = HK>
using TC = Sys<LRU::TimedCache<CK, CV, NS, H>, true>;

static void fresh_counts() { CK::live = CV::live = 0; }
template <class C>
static void exact(const C& c, size_t others = 0) {
  const int64_t n = (int64_t)(c.size() + others);
  obs(n);
  CHECK(CV::live <= n, "a value that is no longer stored was not destroyed, or a value is stored twice");
  CHECK(CV::live >= n, "a value that is still stored was destroyed");
  CHECK(CK::live <= n, "a key that is no longer stored was not destroyed, or a key is stored twice");
  CHECK(CK::live >= n, "a key that is still stored was destroyed");
}
template <class S, uint32_t Ops>
static void history(int n, int k) {
  fresh_counts();
  {
    S s = S::any();
    s.prestate(n);
    exact(s.c);
    for (int i = 0; i < k; i++) {
      s.template step<Ops>();
      exact(s.c);
    }
    s.own.reset();
    CHECK(CV::live == 0 && CK::live == 0, "destroying a cache does not destroy its keys and values");
  }
  reach("end");
}
constexpr uint32_t ONE = INSERTS | O_PIECEWISE | LOOKUPS | ERASES | O_ERASE_END | O_CAPACITY | O_SHRINK | O_CLEAR | O_ASSIGN;
constexpr uint32_t FEW = O_INSERT | O_EMPLACE | O_CONTAINS | O_ERASE | O_ERASE_O | O_SHRINK | O_CAPACITY | O_CLEAR;
// any capacity, up to 3 entries, 2 (3) operations: insertions, lookups, erasures, capacity, shrink, clear, assignment; then destruction
ENTRY(every_u) { history<UC<>, ONE>(3, TIER(2, 3)); }
// up to 3 entries, 3 (4) operations of fewer kinds; two hash values: 3 operations
ENTRY(few_u) { history<UC<>, FEW>(3, TIER(3, 4)); }
ENTRY(few_bit) { history<UC<HKBit>, FEW>(TIER(2, 3), 3); }
// timed: up to 2 entries, 2 (3) operations
ENTRY(every_timed) { history<TC<>, ONE | O_CLEAR_EXPIRED>(2, TIER(2, 3)); }

// ---------------------------------------------------------------- ranges
template <class C>
static void range_step(C& c, bool list) {
  using P = std::pair<CK, CV>;
  const int a = sym_int("key"), b = sym_int("key");
  std::vector<P> src;
  src.reserve(3);
  src.emplace_back(a, 1);
  src.emplace_back(b, 2);
  const uint32_t form = choice(6, "form");
  if (form >= 2 && form <= 5 && list) src.clear();
  switch (form) {
    case 0: c.insert(src); break;
    case 1: c.insert(std::move(src)); break;
    case 2: if (list) c.insert({P(a, 1), P(b, 2)}); else c.insert(src.begin(), src.end()); break;
    case 3: if (list) c = {P(a, 1), P(b, 2)}; else c = src; break;
    case 4: if (list) ASSUME(false); else c = std::move(src); break;
    case 5: if (list) ASSUME(false); else { c = src; c.insert(src); } break;
  }
  src.clear();
}
template <class S>
static void ranges(int n) {
  fresh_counts();
  {
    S s = S::any();
    s.prestate(n);
    range_step(s.c, sym_bool("list"));
    exact(s.c);
    const int k = sym_int("key");
    if (sym_bool("then erase")) s.c.erase(k);
    else s.c.insert(k, 5);
    exact(s.c);
    s.own.reset();
    CHECK(CV::live == 0 && CK::live == 0, "destroying a cache does not destroy its keys and values");
  }
  reach("end");
}
// any capacity, up to 2 entries, insertion or assignment of two elements with arbitrary keys, then an insertion or erasure
ENTRY(ranges_u) { ranges<UC<>>(2); }
ENTRY(ranges_timed) { ranges<TC<>>(TIER(1, 2)); }

// ---------------------------------------------------------------- several caches
template <class S, class C = typename S::Cache>
static void several(int n) {
  fresh_counts();
  {
    S s = S::any();
    s.prestate(n);
    S t = S::any();
    t.prestate(n);
    C& a = s.c;
    C& b = t.c;
    exact(a, b.size());
    switch (choice(8, "what")) {
      case 0: b = a; break;
      case 1: a = std::move(b); break;
      case 2: { using std::swap; swap(a, b); break; }
      case 3: { C d(a); exact(a, b.size() + d.size()); break; }
      case 4: { C d(std::move(a)); exact(a, b.size() + d.size()); break; }
      case 5: { C d(a); b = std::move(d); exact(a, b.size() + d.size()); break; }
      case 6: { C d(std::move(a)); a = d; exact(a, b.size() + d.size()); break; }
      case 7: a = static_cast<const C&>(a); break;
    }
    exact(a, b.size());
    // (a moved-from cache is valid: any operation on either)
    C& c = sym_bool("other") ? b : a;
    const int k = sym_int("key");
    switch (choice(4, "operation")) {
      case 0: c.insert(k, 7); break;
      case 1: c.erase(k); break;
      case 2: c.clear(); break;
      case 3: c.capacity(1); break;
    }
    exact(a, b.size());
    s.own.reset();
    exact(b);
    t.own.reset();
    CHECK(CV::live == 0 && CK::live == 0, "destroying a cache does not destroy its keys and values");
  }
  reach("end");
}
// two caches of any capacity with up to 2 (3) entries each: copies, moves, swaps, then an operation on either, then destruction
ENTRY(several_u) { several<UC<>>(TIER(2, 3)); }
ENTRY(several_timed) { several<TC<>>(TIER(1, 2)); }

// ---------------------------------------------------------------- iterators and results kept
template <class S>
static void kept(int n) {
  fresh_counts();
  {
    S s = S::any();
    s.prestate(n);
    auto& c = s.c;
    const auto& cc = c;
    if (s.m.n == 0) ASSUME(false);
    const uint32_t p = choice(s.m.n, "position");
    auto o = c.ordered_begin();
    for (uint32_t j = 0; j < p; j++) ++o;
    auto oc = cc.ordered_begin();
    auto u = c.unordered_begin();
    auto uc = cc.unordered_begin();
    obs((uint32_t)(int)o->first + (uint32_t)(int)(*oc).second + (uint32_t)(int)u->second + (uint32_t)(int)uc.entry().first * 0u);
    auto o2 = o;
    auto e = *o;
    auto r = c.insert(o.key(), 9);
    exact(c);
    const int k = sym_int("key");
    switch (choice(4, "operation")) {
      case 0: c.insert(k, 7); break;
      case 1: c.erase(k); break;
      case 2: c.clear(); break;
      case 3: c.shrink(1); break;
    }
    exact(c);
    (void)o2; (void)e; (void)r;
    s.own.reset();
    CHECK(CV::live == 0 && CK::live == 0, "destroying a cache does not destroy its keys and values");
  }
  reach("end");
}
// any capacity, up to 2 (3) entries; iterators (dereferenced), entries and insertion results exist while entries are removed
ENTRY(kept_u) { kept<UC<>>(TIER(2, 3)); }

// Monitoring and callbacks keep the keys that are monitored, and nothing else.
template <class S, uint32_t Ops>
static void watched(int n, int k) {
  fresh_counts();
  {
    S s = S::any();
    s.prestate(n);
    const int extra = sym_bool("key") ? 1 : 0;
    if (extra) { CK key(sym_int("monitored key")); s.c.monitor(key); }
    else s.c.monitor();
    s.c.hit_callback([](const CK&, const CV&) {});
    s.c.miss_callback([](const CK&) {});
    s.c.access_callback([](const CK&, bool) {});
    auto check = [&] {
      const int64_t v = (int64_t)s.c.size();
      CHECK(CV::live == v, "a monitored cache does not hold one value per entry");
      CHECK(CK::live == v + extra, "a monitored cache does not hold one key per entry and one per monitored key");
    };
    check();
    for (int i = 0; i < k; i++) {
      s.template step<Ops>();
      check();
    }
    s.c.stop_monitoring();
    exact(s.c);
  }
  reach("end");
}
// any capacity, up to 1 (2) entries, no or one monitored key, callbacks; 2 operations
ENTRY(watched_u) { watched<UC<>, LOOKUPS | O_INSERT | O_ERASE | O_CLEAR>(TIER(1, 2), 2); }
ENTRY(watched_timed) { watched<TC<>, LOOKUPS3 | O_LOOKUPC | O_INSERT | O_ERASE | O_CLEAR_EXPIRED>(TIER(1, 2), 2); }

// ---------------------------------------------------------------- wrapped functions
static int plus(CK a) { return (int)((unsigned)a.v + 1u); }
// a wrapped function of capacity 0 to 2 called with up to 3 arbitrary arguments keeps at most as many of them as its capacity
ENTRY(wrapped) {
  fresh_counts();
  {
    const size_t cap = choice(3, "capacity");
    auto w = LRU::wrap(plus, cap);
    int seen[3];
    for (int i = 0; i < 3; i++) {
      seen[i] = sym_int("argument");
      obs((uint32_t)w(CK(seen[i])));
      size_t distinct = 0;
      for (int j = 0; j <= i; j++) {
        bool before = false;
        for (int l = 0; l < j; l++) before = before || seen[l] == seen[j];
        if (!before) distinct++;
      }
      const size_t n = distinct < cap ? distinct : cap;
      CHECK(CK::live == (int64_t)n, "a wrapped function does not keep exactly the arguments it caches");
    }
  }
  CHECK(CK::live == 0, "destroying a wrapped function does not destroy the arguments it kept");
  reach("end");
}

// ---------------------------------------------------------------- long histories
// any capacity, up to 2 entries (timed: 1), then 40 (timed: 16) times the same two operations with the same two arbitrary keys
template <class S>
static void repeated(int before, int times) {
  fresh_counts();
  {
    S s = S::any();
    s.prestate(before);
    pump<S>(s, times, [](S& x) { exact(x.c); });
  }
  CHECK(CV::live == 0 && CK::live == 0, "destroying a cache does not destroy its keys and values");
  reach("end");
}
ENTRY(repeated_u) { repeated<UC<>>(TIER(1, 2), 40); }
ENTRY(repeated_timed) { repeated<TC<>>(1, 16); }
// after each of 400 (1500) fixed operations in a cache of capacity 20 or 150, and after one arbitrary one
template <class S>
static void long_counts(int steps) {
  fresh_counts();
  {
    const Size z = any_size();
    Sequence next = any_sequence();
    S s(z.cap, z.ttl);
    busy(s, next, steps, z.keys, [](S& x) { exact(x.c); });
    s.tick();
    s.perform(1u << nth_bit(LAST, choice(__builtin_popcount(LAST), "operation")));
    exact(s.c);
  }
  CHECK(CV::live == 0 && CK::live == 0, "destroying a cache does not destroy its keys and values");
  reach("end");
}
ENTRY(after_many_u) { long_counts<UC<HKLow>>(TIER(400, 1500)); }
ENTRY(after_many_timed) { long_counts<TC<HKLow>>(TIER(400, 1500)); }
// 1100 (20000) times one of 13 kinds of fixed operation, then an arbitrary lookup, insertion or erasure
ENTRY(bursts_u) { fresh_counts(); bursts<UC<HKLow>>(BURST, LAST3, [](auto& x) { exact(x.c); }); }
ENTRY(bursts_timed) { fresh_counts(); bursts<TC<HKLow>>(BURST, LAST3, [](auto& x) { exact(x.c); }); }
