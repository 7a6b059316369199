#define OWN (G_ALL)
#define MODEL_MAX 200
#include "long.hpp"

constexpr uint32_t AFTER = INSERTS | LOOKUPS3 | O_LOOKUPC | O_ERASE | O_ERASE_O | O_CAPACITY | O_SHRINK | O_CLEAR | O_ASSIGN;
constexpr uint32_t FEW = O_INSERT | O_CONTAINS | O_LOOKUP | O_ERASE | O_CAPACITY;

template <class S>
static void do_swap(S& s, S& t) {
  switch (choice(3, "form")) {
    case 0: s.c.swap(t.c); break;
    case 1: { using std::swap; swap(s.c, t.c); break; }
    case 2: std::swap(s.c, t.c); break;
  }
  std::swap(s.m, t.m);
}
template <class S, uint32_t A>
static void after(S& s, S& t, int steps) {
  for (int i = 0; i < steps; i++) {
    if (sym_bool("on_second")) t.template step<A>();
    else s.template step<A>();
  }
  s.verify();
  t.verify();
  if (sym_bool("which_dies")) {
    s.own.reset();
    t.template step<FEW>();
    t.verify();
  } else {
    t.own.reset();
    s.template step<FEW>();
    s.verify();
  }
  reach("end");
}
template <class S, uint32_t B, uint32_t A>
static void swapping(int n, int pre, int post) {
  S s = S::any(), t = S::any();
  s.prestate(n);
  t.prestate(n > 1 ? n - 1 : n);
  for (int i = 0; i < pre; i++) s.template step<B>();
  if (t.m.n > 0 && sym_bool("second_used")) t.template step<O_CONTAINS>();
  do_swap(s, t);
  s.verify();
  t.verify();
  after<S, A>(s, t, post);
}
// two caches with up to 2 and 1 entries and any capacities, an operation, swap in 3 forms, an operation on either, the other destroyed, another operation
ENTRY(swap_u) { swapping<U<>, O_CONTAINS, TIER(FEW, AFTER)>(2, 1, 1); }
// the same with two hash values
ENTRY(swap_bit) { swapping<U<HBit>, O_CONTAINS, O_INSERT | O_LOOKUP>(TIER(1, 2), 1, 1); }
// timed: times to live and insertion times go along
ENTRY(swap_timed) { swapping<T<>, O_CONTAINS, O_INSERT | O_LOOKUP | O_ERASE | O_CLEAR_EXPIRED>(1, TIER(0, 1), 1); }
template <class S, uint32_t A>
static void onto_itself() {
  S s = S::any();
  s.prestate(TIER(2, 3));
  s.template step<FEW>();
  auto& same = s.c;
  switch (choice(4, "form")) {
    case 0: s.c.swap(same); break;
    case 1: { using std::swap; swap(s.c, same); break; }
    case 2: std::swap(s.c, same); break;
    default: { auto& r = (s.c = std::move(same)); CHECK(&r == &s.c, "assignment does not return the target"); break; }
  }
  s.verify();
  s.template step<A>();
  s.verify();
  reach("end");
}
// swapping a cache with itself in 3 forms, moving it onto itself: nothing changes
ENTRY(swap_self) { onto_itself<U<>, AFTER>(); }
// the same, timed
ENTRY(swap_self_timed) { onto_itself<T<>, O_INSERT | O_LOOKUP | O_ERASE>(); }

// A moved-from cache may hold anything, but what it reports has to be true.
template <class S>
static Model now_holds(const S&, const typename S::Cache& c) { return read(c); }

template <class S, uint32_t B, uint32_t A>
static void moving(int n, int pre, int post) {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < pre; i++) s.template step<B>();
  Model before = s.m;
  C* p;
  switch (choice(3, "form")) {
    case 0: p = new C(std::move(s.c)); break;
    case 1: { C b = std::move(s.c); p = new C(std::move(b)); break; }   // twice, the intermediate one dies
    default: { std::vector<C> v; v.push_back(std::move(s.c)); p = new C(std::move(v[0])); break; }
  }
  S t(p, before);
  t.verify();
  s.m = now_holds(s, s.c);
  CHECK(s.c.size() <= s.c.capacity(), "a moved-from cache holds more entries than its capacity");
  after<S, A>(s, t, post);
}
// up to 3 entries, an operation, move construction in 3 forms, an operation on either, one destroyed, another operation
ENTRY(move_u) { moving<U<>, FEW, AFTER>(TIER(2, 3), 1, 1); }
// the same with two hash values
ENTRY(move_bit) { moving<U<HBit>, O_CONTAINS, FEW>(2, 1, 1); }

template <class S, uint32_t B, uint32_t A>
static void move_assigning(int n, int pre, int post) {
  S s = S::any(), t = S::any();
  s.prestate(n);
  for (int i = 0; i < pre; i++) s.template step<B>();
  t.prestate(1);
  Model before = s.m;
  auto& r = (t.c = std::move(s.c));
  CHECK(&r == &t.c, "assignment does not return the target");
  t.m = before;
  t.verify();
  s.m = now_holds(s, s.c);
  CHECK(s.c.size() <= s.c.capacity(), "a moved-from cache holds more entries than its capacity");
  after<S, A>(s, t, post);
}
// move assignment to a cache with up to 1 entry
ENTRY(move_assign_u) { move_assigning<U<>, FEW, AFTER>(2, 1, 1); }
// assignment from a temporary
ENTRY(from_temporary) {
  U<> t = U<>::any();
  t.prestate(2);
  {
    size_t cap = sym_size("capacity");
    t.c = U<>::Cache(cap);
    t.m = Model();
    t.m.cap = cap;
  }
  t.verify();
  t.step<AFTER>();
  t.step<FEW>();
  t.verify();
  reach("end");
}
// timed caches: the target behaves like the source did; the moved-from cache is only bounded by its capacity
template <class S>
static void move_timed(bool assign) {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(2);
  s.template step<O_CONTAINS | O_INSERT>();
  Model before = s.m;
  std::unique_ptr<S> t;
  if (assign) {
    int64_t ttl = any_ttl();
    size_t cap = sym_size("capacity");
    C* p = new C(NS(ttl), cap);
    p->insert(sym_int("key"), 1);
    *p = std::move(s.c);
    t.reset(new S(p, before));
  } else {
    t.reset(new S(new C(std::move(s.c)), before));
  }
  t->verify();
  CHECK(s.c.size() <= s.c.capacity(), "a moved-from cache holds more entries than its capacity");
  int k = sym_int("key");
  s.c.insert(k, 1);
  s.c.insert(sym_int("key"), 1);
  CHECK(s.c.size() <= s.c.capacity(), "a moved-from cache holds more entries than its capacity");
  if (sym_bool("which_dies")) s.own.reset();
  t->tick();
  t->template step<LOOKUPS3 | O_INSERT | O_ERASE | O_CLEAR_EXPIRED | O_CAPACITY>();
  t->template step<LOOKUPS3>();
  t->verify();
  reach("end");
}
ENTRY(move_timed_construct) { move_timed<T<>>(false); }
ENTRY(move_timed_assign) { move_timed<T<>>(true); }

// ---------------------------------------------------------------- long histories

template <class S>
static void long_transfers() {
  using C = typename S::Cache;
  const Size z = any_size();
  Sequence next = any_sequence();
  S s(z.cap, z.ttl);
  busy(s, next, TIER(300, 1000), z.keys);
  std::unique_ptr<S> t;
  const uint32_t form = choice(4, "form");
  if (form == 0) {
    const Model before = s.m;
    t.reset(new S(new C(std::move(s.c)), before));
  } else {
    t.reset(new S(form == 2 ? 7 : z.cap, 5));
    busy(*t, next, 50, z.keys);
    if (form == 3) {
      t->c = std::move(s.c);
      t->m = s.m;
    } else {
      do_swap(s, *t);
    }
  }
  t->verify();
  t->verify_unordered();
  if (form == 0 || form == 3) {
    CHECK(s.c.size() <= s.c.capacity(), "a moved-from cache holds more entries than its capacity");
    s.own.reset();
    busy(*t, next, 60, z.keys);
    t->template step<O_CONTAINS | O_INSERT | O_ERASE | O_CAPACITY>();
    t->verify();
    reach("end");
    return;
  }
  s.verify();
  busy(s, next, 60, z.keys);
  busy(*t, next, 60, z.keys);
  S& x = sym_bool("on_second") ? *t : s;
  if (sym_bool("other dies")) (&x == &s ? t->own : s.own).reset();
  x.template step<O_CONTAINS | O_INSERT | O_ERASE>();
  x.verify();
  if (&x == &s ? (bool)t->own : (bool)s.own) (&x == &s ? *t : s).verify();
  reach("end");
}
// after 300 (1000) fixed operations in a cache of capacity 20 or 150: swapped with, moved to or assigned to another used cache, 60 fixed operations on each, perhaps the death of one, an arbitrary operation on the other
ENTRY(long_u) { long_transfers<U<HLow>>(); }
ENTRY(long_timed) { long_transfers<T<HLow>>(); }
