// C22: iterators and references stay valid until their entry is removed.
#define OWN (G_VALUE | G_LOOKUP | G_ITER)
#define MODEL_MAX 200
#include "long.hpp"

// Handles of every kind on one entry.
template <class S>
struct Held {
  using C = typename S::Cache;
  S* s;
  int key;
  typename C::UnorderedIterator u;
  typename C::UnorderedConstIterator uc;
  typename C::OrderedIterator o;
  typename C::OrderedConstIterator oc;
  int* value;
  const int* ref;
  const int* kp;

  // The entry at position i of the recency order.
  Held(S& sys, int i) : s(&sys) {
    key = s->m.e[i].key;
    auto& c = s->c;
    const auto& cc = c;
    o = c.ordered_begin();
    oc = cc.ordered_begin();
    for (int j = 0; j < i; j++) {
      ++o;
      ++oc;
    }
    u = c.unordered_begin();
    uc = cc.unordered_begin();
    while (u->first != key) ++u;
    while (uc->first != key) ++uc;
    if (sym_bool("dereferenced")) {
      obs(o->second);
      obs(oc->second);
    }
    value = &u->second;
    ref = &uc->second;
    kp = &u->first;
  }
  bool there() const { return s->m.find(key) >= 0; }
  void pointers() {
    const int v = s->m.e[s->m.find(key)].val;
    CHECK(*kp == key, "a reference to a key refers to something else");
    CHECK(*value == v && *ref == v, "a reference to a value refers to something else");
  }
  void check() {
    const int v = s->m.e[s->m.find(key)].val;
    pointers();
    CHECK(u->first == key && u->second == v, "an unordered iterator refers to something else");
    CHECK(uc->first == key && uc->second == v, "a const unordered iterator refers to something else");
    CHECK(o->first == key && o->second == v, "an ordered iterator refers to something else");
    CHECK(oc->first == key && oc->second == v, "a const ordered iterator refers to something else");
    if (!s->m.expired(s->m.find(key))) {  // key() and value() are checked accesses
      CHECK(u.key() == key && (*u).value() == v, "an unordered iterator refers to something else");
      CHECK(o.key() == key && o.value() == v, "an ordered iterator refers to something else");
    }
    CHECK(&u->second == value && &o->second == value, "an iterator refers to another object");
    CHECK(o == u, "an ordered and an unordered iterator to the same entry differ");
  }
  // Fresh iterators to the entry equal the held ones.
  void agree() {
    auto& c = s->c;
    const int pos = s->m.find(key);
    auto f = c.ordered_begin();
    for (int j = 0; j < pos; j++) ++f;
    CHECK(f == o, "an ordered iterator differs from a fresh one");
    auto n = o;
    ++n;
    CHECK((n == c.ordered_end()) == (pos + 1 == s->m.n), "an ordered iterator has lost its place");
    if (pos + 1 < s->m.n) CHECK(n->first == s->m.e[pos + 1].key, "an ordered iterator has lost its place");
    auto g = c.unordered_begin();
    int i = 0;
    while (g != u && i <= s->m.n) {
      ++g;
      i++;
    }
    CHECK(i < s->m.n, "an unordered iterator has lost its place");
  }
  void assign(int v) {
    switch (choice(s->m.expired(s->m.find(key)) ? 3 : 6, "through")) {
      case 0: *value = v; break;
      case 1: u->second = v; break;
      case 2: o->second = v; break;
      case 3: u.value() = v; break;
      case 4: o.value() = v; break;
      case 5: (*u).value() = v; break;
    }
    s->m.e[s->m.find(key)].val = v;
  }
};

template <class S, uint32_t Ops, bool Writes = true>
static void history(int n, int steps, bool any_cap = true) {
  const size_t cap = any_cap ? sym_size("capacity") : 3;
  const int64_t ttl = S::timed ? any_ttl() : 0;
  std::unique_ptr<S> s(new S(cap, ttl));
  s->prestate(n);
  if (s->m.n == 0) ASSUME(false);
  Held<S> h(*s, choice(s->m.n, "entry"));
  const bool write = Writes && sym_bool("write");
  if (write && sym_bool("before")) h.assign(sym_int("value"));
  for (int i = 0; i < steps; i++) {
    s->template step<Ops>();
    if (!h.there()) __sym_exit();
    h.check();
  }
  h.agree();
  if (write) {
    h.assign(sym_int("value"));
    h.check();
  }
  // what was assigned is what lookups return
  s->lookup(O_LOOKUP, h.key);
  s->lookup(O_FINDC, sym_int("key"));
  s->verify();
  reach("end");
}
constexpr uint32_t OPS = INSERTS | O_PIECEWISE | LOOKUPS3 | O_LOOKUPC | ERASES | O_CAPACITY | O_SHRINK | O_ASSIGN | O_QUERY;
constexpr uint32_t FEW = O_INSERT | O_EMPLACE | O_LOOKUP | O_CONTAINS | O_ERASE | O_ERASE_O | O_CAPACITY;
// any capacity, up to 2 (3) entries, handles of every kind on any of them, 1 operation of any kind that does not remove it
ENTRY(any_u) { history<U<>, OPS>(TIER(2, 3), 1); }
// 2 operations, up to 2 entries
ENTRY(two_u) { history<U<>, FEW, true>(2, 2); }
ENTRY(two_bit) { history<U<HBit>, O_INSERT | O_CONTAINS | O_ERASE, TIER(false, true)>(2, TIER(1, 2), false); }
ENTRY(any_timed) { history<T<>, OPS | O_CLEAR_EXPIRED>(TIER(1, 2), 1); }
ENTRY(two_timed) { history<T<>, O_INSERT | O_LOOKUP | O_ERASE | O_CLEAR_EXPIRED | O_CAPACITY, TIER(false, true)>(2, 2); }

// ---------------------------------------------------------------- rehashing
ENTRY(rehash) {
  using S = U<HLow>;
  S s(40);
  const int n = TIER(5, 9);
  int first = sym_int("key");
  s.insert(first, 50);
  for (int i = 1; i < n; i++) {
    for (int j = 0; j < s.m.n; j++) ASSUME(s.m.e[j].key != 100 + i);
    s.insert(100 + i, i);
  }
  Held<S> h(s, choice(n, "entry"));
  for (int i = 0; i < TIER(14, 28); i++) {
    ASSUME(first != 200 + i);
    s.insert(200 + i, i);
  }
  h.check();
  h.agree();
  if (sym_bool("write")) h.assign(7);
  s.capacity(39 - choice(3, "smaller"));
  if (!h.there()) __sym_exit();
  h.check();
  s.lookup(O_LOOKUP, h.key);
  s.verify();
  reach("end");
}

// ---------------------------------------------------------------- many removals at once
// Everything around the entry goes in one operation.
template <class S>
static void shrunk(int n) {
  S s(n + 3, S::timed ? any_ttl() : 0);
  const int first = n > 9 ? 7 : sym_int("key");
  s.insert(first, 50);
  for (int i = 1; i < n; i++) {
    ASSUME(first != 100 + i);
    if (S::timed && i == n / 2) s.tick();
    s.insert(100 + i, i);
  }
  s.tick();
  Held<S> h(s, choice(n, "entry"));
  const size_t to = sym_size("to");
  switch (choice(S::timed ? 4 : 3, "form")) {
    case 0: s.shrink(to); break;
    case 1: s.capacity(to); break;
    case 2:
      s.capacity(to);
      if (!h.there()) __sym_exit();
      s.insert(sym_int("key"), 3);
      break;
    case 3: s.template step<O_CLEAR_EXPIRED>(); break;
  }
  if (!h.there()) __sym_exit();
  h.check();
  h.agree();
  h.assign(1234);
  s.lookup(O_LOOKUP, h.key);
  s.verify();
  reach("end");
}
// 6 (9) entries, handles of every kind on any of them, any new size or capacity, or all expired entries cleared
ENTRY(shrunk_u) { shrunk<U<>>(TIER(6, 9)); }
ENTRY(shrunk_timed) { shrunk<T<>>(TIER(6, 8)); }
// 24 (60) entries
ENTRY(shrunk_many) { shrunk<U<HLow>>(TIER(24, 60)); }

// ---------------------------------------------------------------- other caches
// References survive moving and swapping, and copies of the cache leave them alone.
template <class S>
static void moved(int n, int steps) {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(n);
  if (s.m.n == 0) ASSUME(false);
  Held<S> h(s, choice(s.m.n, "entry"));
  const int form = choice(7, "form");
  std::unique_ptr<S> t;
  if (form >= 2) {
    t.reset(new S(2, S::timed ? any_ttl() : 0));
    t->prestate(1);
  }
  switch (form) {
    case 0: t.reset(new S(new C(std::move(s.c)), s.m)); break;
    case 1: { C x(std::move(s.c)); t.reset(new S(new C(std::move(x)), s.m)); break; }
    case 2: t->c = std::move(s.c); t->m = s.m; break;
    case 3: s.c.swap(t->c); std::swap(s.m, t->m); break;
    case 4: { using std::swap; swap(s.c, t->c); std::swap(s.m, t->m); break; }
    case 5: t->c.swap(s.c); std::swap(s.m, t->m); break;
    case 6: {  // a copy, which then changes and dies
      C x(s.c);
      x.insert(h.key, 5);
      x.clear();
      t->c = s.c;
      t->c.erase(h.key);
      h.check();
      h.agree();
      s.verify();
      reach("end");
      return;
    }
  }
  h.s = t.get();
  h.pointers();
  if (sym_bool("source_dies")) s.own.reset();
  const auto& cc = t->c;
  bool same_object = false;
  for (auto it = cc.begin(); it != cc.end(); ++it) same_object |= &it->second == h.value && &it->first == h.kp;
  CHECK(same_object, "a reference does not refer to the moved entry");
  for (int i = 0; i < steps; i++) {
    t->template step<O_INSERT | O_CONTAINS | O_LOOKUP | O_ERASE>();
    if (!h.there()) __sym_exit();
    h.pointers();
  }
  *h.value = 1234;
  t->m.e[t->m.find(h.key)].val = 1234;
  t->lookup(O_LOOKUP, h.key);
  t->verify();
  reach("end");
}
// any capacity, up to 2 entries, move construction and assignment, swap and copies, then 1 operation
ENTRY(moved_u) { moved<U<>>(2, TIER(1, 2)); }
ENTRY(moved_timed) { moved<T<>>(TIER(1, 2), 1); }

// ---------------------------------------------------------------- long histories

template <class S>
static void long_held() {
  const Size z = any_size();
  Sequence next = any_sequence();
  S s(z.cap, z.ttl);
  busy(s, next, 100, z.keys);
  const int k = 1000 + (int)choice(2, "key");
  s.insert(k, 5);
  Held<S> h(s, s.m.n - 1);
  const bool used = sym_bool("used");
  int turn = 0;
  busy(s, next, TIER(300, 1000), z.keys, [&](S& t) {
    if (!h.there()) __sym_exit();
    const int i = s.m.find(k);
    if (used ? ++turn % 4 == 0 : i < 5) {  // keeps it from being evicted
      t.insert(k, turn);
      h.key = k;
      h.pointers();
    }
  }, false);
  h.check();
  h.agree();
  s.tick();
  s.template step<O_CONTAINS | O_INSERT | O_ERASE | O_LOOKUP>();
  if (!h.there()) __sym_exit();
  h.check();
  h.agree();
  h.assign(77);
  s.lookup(O_LOOKUP, k);
  s.verify();
  reach("end");
}
// handles on an entry in a cache of capacity 20 or 150, then 300 (1000) fixed operations and an arbitrary one
ENTRY(long_u) { long_held<U<HLow>>(); }
ENTRY(long_timed) { long_held<T<HLow>>(); }
