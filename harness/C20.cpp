// C20: behaviour depends on the key equality, not on hashes or layout.
#define OWN (G_ALL)
#define MODEL_MAX 200
#include "long.hpp"

// Equality that looks at the bits of a mask; hash functions that look at some of
// the same bits.  Default constructed ones differ from those that are passed, so
// that losing the given ones shows.
struct Eq {
  uint32_t mask = 0xdead0000u;
  Eq() = default;
  explicit Eq(uint32_t m) : mask(m) {}
  bool operator()(const int& a, const int& b) const { return (((uint32_t)a ^ (uint32_t)b) & mask) == 0; }
};
struct Ha {
  uint32_t mask = 0x7fu;
  Ha() = default;
  explicit Ha(uint32_t m) : mask(m) {}
  size_t operator()(const int& k) const noexcept { return (uint32_t)k & mask; }
};
// the same, with hash codes stored in the nodes
struct HaC {
  uint32_t mask = 0x7fu;
  HaC() = default;
  explicit HaC(uint32_t m) : mask(m) {}
  size_t operator()(const int& k) const { return (uint32_t)k & mask; }
};
template <class H> using UC = LRU::Cache<int, int, H, Eq>;
template <class H> using TC = LRU::TimedCache<int, int, NS, H, Eq>;
template <class H> using UM = Sys<UC<H>, false>;
template <class H> using TM = Sys<TC<H>, true>;

struct Fns {
  uint32_t eq, ha;
};
// Any equality mask; the hash looks at bits the equality looks at.
static Fns any_fns(uint32_t bits) {
  Fns f;
  f.eq = (uint32_t)sym_int("equality_mask");
  f.ha = (uint32_t)sym_int("hash_mask");
  ASSUME((f.ha & ~f.eq) == 0);
  ASSUME((f.ha & ~bits) == 0);
  return f;
}
template <class S>
static S* fresh(const Fns& f) {
  using C = typename S::Cache;
  using H = typename std::decay<decltype(std::declval<C>().hash_function())>::type;
  Model m;
  m.cap = sym_size("capacity");
  m.mask = f.eq;
  m.timed = S::timed;
  C* p;
  if constexpr (S::timed) {
    m.ttl = any_ttl();
    p = new C(NS(m.ttl), m.cap, H(f.ha), Eq(f.eq));
  } else {
    p = new C(m.cap, H(f.ha), Eq(f.eq));
  }
  return new S(p, m);
}
template <class S>
static void functions(S& s, const Fns& f) {
  const auto& c = s.c;
  CHECK(c.hash_function().mask == f.ha, "hash_function is not the given one");
  CHECK(c.key_equal().mask == f.eq, "key_equal is not the given one");
}

template <class S, uint32_t Ops>
static void history(int n, int k, uint32_t bits) {
  Fns f = any_fns(bits);
  std::unique_ptr<S> s(fresh<S>(f));
  s->prestate(n);
  for (int i = 0; i < k; i++) s->template step<Ops>();
  functions(*s, f);
  s->verify();
  reach("end");
}
constexpr uint32_t EVERY = INSERTS | O_PIECEWISE | LOOKUPS | ERASES | O_CAPACITY | O_SHRINK | O_CLEAR | O_ASSIGN | O_RANGE | O_ASSIGN_RANGE;
constexpr uint32_t SOME = O_INSERT | O_CONTAINS | O_LOOKUP | O_FIND | O_ERASE;
// any equality mask, every hash mask within one bit, any capacity, up to 2 entries, 2 operations of any kind
ENTRY(every_u) { history<UM<Ha>, EVERY>(TIER(2, 2), 2, TIER(0, 1)); }
ENTRY(every_bit) { history<UM<Ha>, SOME>(2, 2, TIER(1, 3)); }
// hash codes stored in the nodes
ENTRY(every_cached) { history<UM<HaC>, SOME | O_ERASE_O | O_ERASE_U>(2, 2, 1); }
// timed caches
ENTRY(every_timed) { history<TM<Ha>, SOME | O_EMPLACE | O_LOOKUPC | O_ERASE_O | O_CLEAR_EXPIRED>(2, 2, TIER(0, 1)); }

// The last accessed key under the equality: an access served without a hash lookup.
template <class S>
static void last_accessed(int n) {
  Fns f = any_fns(1);
  std::unique_ptr<S> s(fresh<S>(f));
  s->prestate(n);
  s->template step<LOOKUPS3 | O_INSERT | O_EMPLACE>();
  s->template step<O_CONTAINS | O_LOOKUP | O_LOOKUPC | O_INDEX | O_ERASE>();
  s->template step<O_CONTAINS | O_LOOKUP>();
  s->verify();
  reach("end");
}
ENTRY(last_u) { last_accessed<UM<Ha>>(2); }
ENTRY(last_timed) { last_accessed<TM<Ha>>(1); }

// ---------------------------------------------------------------- the functions travel with the contents
template <class S, uint32_t A>
static void travel(int n, int steps) {
  using C = typename S::Cache;
  Fns f = any_fns(1);
  std::unique_ptr<S> s(fresh<S>(f));
  s->prestate(n);
  if (n > 0 && sym_bool("use")) s->template step<O_CONTAINS>();
  std::unique_ptr<S> t;
  Fns g{3, 2};
  const int form = choice(8, "form");
  if (form >= 3) {
    t.reset(fresh<S>(g));
    t->prestate(1);
  }
  bool s_alive = true;
  switch (form) {
    case 0: t.reset(new S(new C(s->c), s->m)); g = f; break;
    case 1: t.reset(new S(new C(std::move(s->c)), s->m)); g = f; s_alive = false; break;
    case 2: { C x(s->c); C y(std::move(x)); t.reset(new S(new C(y), s->m)); g = f; break; }
    case 3: t->c = s->c; t->m = s->m; g = f; break;
    case 4: t->c = std::move(s->c); t->m = s->m; g = f; s_alive = false; break;
    case 5: s->c.swap(t->c); std::swap(s->m, t->m); std::swap(f, g); break;
    case 6: { using std::swap; swap(t->c, s->c); std::swap(s->m, t->m); std::swap(f, g); break; }
    case 7: s->c.swap(t->c); t->c.swap(s->c); break;
  }
  functions(*t, g);
  if (s_alive) functions(*s, f);
  for (int i = 0; i < steps; i++) {
    if (s_alive && sym_bool("on_source")) s->template step<A>();
    else t->template step<A>();
  }
  functions(*t, g);
  t->verify();
  if (s_alive) {
    functions(*s, f);
    s->verify();
  }
  reach("end");
}
// up to 2 entries, a lookup; copy, move, assignment, move assignment, swap; then 1 operation on either
ENTRY(travel_u) { travel<UM<Ha>, TIER(SOME, SOME | O_EMPLACE | O_LOOKUPC | O_ERASE_O | O_CAPACITY)>(2, TIER(1, 2)); }
ENTRY(travel_timed) { travel<TM<Ha>, O_INSERT | O_LOOKUP>(1, 1); }

// Afterwards two lookups of any keys in a row on the target (the second may be served by the last-accessed shortcut).
template <class S>
static void travel_last() {
  using C = typename S::Cache;
  Fns f = any_fns(0);
  std::unique_ptr<S> s(fresh<S>(f));
  s->prestate(1);
  if (!S::timed && sym_bool("use")) s->template step<O_CONTAINS>();
  Fns g{1, 0};
  std::unique_ptr<S> t;
  const int form = choice(6, "form");
  if (form >= 2) {
    t.reset(fresh<S>(g));
    t->prestate(1);
    if (!S::timed && sym_bool("use")) t->template step<O_CONTAINS>();
  }
  switch (form) {
    case 0: t.reset(new S(new C(s->c), s->m)); break;
    case 1: t.reset(new S(new C(std::move(s->c)), s->m)); break;
    case 2: t->c = s->c; t->m = s->m; break;
    case 3: t->c = std::move(s->c); t->m = s->m; break;
    case 4: s->c.swap(t->c); std::swap(s->m, t->m); break;
    case 5: { using std::swap; swap(s->c, t->c); std::swap(s->m, t->m); break; }
  }
  functions(*t, f);
  for (int i = 0; i < 2; i++) t->template step<O_CONTAINS | O_INSERT | O_LOOKUPC>();
  t->template step<O_CONTAINS | O_LOOKUPC>();
  t->verify();
  reach("end");
}
// any equality mask on the source, equality of the lowest bit on the target, up to 1 entry each; then 3 lookups or insertions
ENTRY(travel_last_u) { travel_last<UM<Ha>>(); }
ENTRY(travel_last_timed) { travel_last<TM<Ha>>(); }

// ---------------------------------------------------------------- the functions given to every constructor
template <class C, class... A>
static void given(A&&... a) {
  C c(std::forward<A>(a)...);
  CHECK(c.hash_function().mask == 5 && c.key_equal().mask == 7, "a constructor ignores the functions given to it");
  obs(c.size());
}
ENTRY(constructors) {
  using C = UC<Ha>;
  using D = TC<Ha>;
  std::vector<std::pair<int, int>> v;
  const auto& cv = v;
  int k = sym_int("key"), l = sym_int("key");
  v.emplace_back(k, 1);
  v.emplace_back(l, 2);
  const Ha h(5);
  const Eq e(7);
  const bool same = ((k ^ l) & 7) == 0;
  C::InitializerList il = {{1, 1}, {9, 2}, {2, 3}};
  size_t n = 0;
  switch (choice(9, "constructor")) {
    case 0: given<C>((size_t)3, h, e); break;
    case 1: given<C>((size_t)3, v.begin(), v.end(), h, e); break;
    case 2: given<C>(v.begin(), v.end(), h, e); break;
    case 3: given<C>((size_t)3, v, h, e); break;
    case 4: given<C>(v, h, e); break;
    case 5: given<C>(cv, h, e); break;
    case 6: given<C>(std::move(v), h, e); break;
    case 7: given<C>(il, h, e); break;
    case 8: given<C>((size_t)3, il, h, e); break;
  }
  v.clear();
  v.emplace_back(k, 1);
  v.emplace_back(l, 2);
  switch (choice(9, "constructor")) {
    case 0: given<D>(NS(9), (size_t)3, h, e); break;
    case 1: given<D>(NS(9), (size_t)3, v.begin(), v.end(), h, e); break;
    case 2: given<D>(NS(9), v.begin(), v.end(), h, e); break;
    case 3: given<D>(NS(9), (size_t)3, v, h, e); break;
    case 4: given<D>(NS(9), v, h, e); break;
    case 5: given<D>(NS(9), cv, h, e); break;
    case 6: given<D>(NS(9), std::move(v), h, e); break;
    case 7: given<D>(NS(9), il, h, e); break;
    case 8: given<D>(NS(9), (size_t)3, il, h, e); break;
  }
  C c(il, h, e);
  CHECK(c.size() == 2 && c.contains(9) && c.contains(10) && c.lookup(17) == 2, "a constructor does not use the functions given to it");
  v.clear();
  v.emplace_back(k, 1);
  v.emplace_back(l, 2);
  C d(4, v.begin(), v.end(), h, e);
  n = d.size();
  CHECK(n == (same ? 1u : 2u), "a constructor does not use the functions given to it");
  reach("end");
}

// ---------------------------------------------------------------- two hash functions side by side
// Every observable result is the same for two hash functions that are consistent with the equality.
ENTRY(side_by_side) {
  const uint32_t mask = (uint32_t)sym_int("equality_mask");
  Fns f{mask, 0}, g{mask, mask & 1};
  size_t cap = 1 + (size_t)choice(3, "capacity");
  UC<Ha> a(cap, Ha(f.ha), Eq(mask));
  UC<HaC> b(cap, HaC(g.ha), Eq(mask));
  for (int i = 0; i < TIER(4, 5); i++) {
    int k = sym_int("key");
    switch (choice(4, "operation")) {
      case 0: CHECK(a.insert(k, i).was_inserted() == b.insert(k, i).was_inserted(), "insertions differ between hash functions"); break;
      case 1: CHECK(a.contains(k) == b.contains(k), "lookups differ between hash functions"); break;
      case 2: CHECK(a.erase(k) == b.erase(k), "erasures differ between hash functions"); break;
      case 3: {
        auto x = a.find(k);
        auto y = b.find(k);
        CHECK((x == a.end()) == (y == b.end()), "find differs between hash functions");
        break;
      }
    }
  }
  Model x = read(static_cast<const UC<Ha>&>(a)), y = read(static_cast<const UC<HaC>&>(b));
  CHECK(same(x, y), "contents differ between hash functions");
  reach("end");
}

// ---------------------------------------------------------------- keys that are tuples
// Equal tuples have equal hashes, and a cache keyed by tuples finds them.
ENTRY(tuples) {
  using T3 = std::tuple<short, bool, char>;
  short a = (short)sym_int("a"), c = (short)sym_int("c");
  bool b = sym_bool("b"), d = sym_bool("d");
  T3 x(a, b, 'x'), y(c, d, 'x');
  if (x == y) CHECK(std::hash<T3>()(x) == std::hash<T3>()(y), "equal tuples have different hashes");
  CHECK(std::hash<std::tuple<>>()(std::tuple<>()) == std::hash<std::tuple<>>()(std::tuple<>()), "the hash of the empty tuple varies");
  reach("end");
}
// any two of three concrete tuples
ENTRY(tuple_keys) {
  using T2 = std::tuple<int, std::string>;
  LRU::Cache<T2, int> c(2);
  const T2 t[3] = {T2(1, "a"), T2(1, "b"), T2(2, "a")};
  int i = choice(3, "first"), j = choice(3, "second"), k = choice(3, "third");
  c.insert(t[i], i);
  c.insert(t[j], j);
  CHECK(c.contains(t[k]) == (k == i || k == j), "tuple keys are mixed up");
  if (c.contains(t[k])) CHECK(c.lookup(t[k]) == k, "tuple keys are mixed up");
  reach("end");
}

// ---------------------------------------------------------------- long histories
// two hash values, any capacity, up to 2 entries (timed: 1), then 40 (timed: 16) times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys
ENTRY(repeated_u) { pump<U<HBit>>(2, 40); }
ENTRY(repeated_timed) { pump<T<HBit>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150 whose keys have two hash values, one arbitrary lookup, insertion, erasure or shrink
ENTRY(after_many_u) { long_history<U<HBit>>(TIER(500, 1500), 20, 150, LAST); }
ENTRY(after_many_timed) { long_history<T<HBit>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 13 kinds of fixed operation where all keys have the same hash value, in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure
ENTRY(bursts_u) { bursts<U<HConst>>(BURST, LAST3); }
ENTRY(bursts_timed) { bursts<T<HConst>>(BURST, LAST3); }
