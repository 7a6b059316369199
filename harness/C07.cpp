#define OWN (G_ALL)
#define MODEL_MAX 200
#include "long.hpp"

constexpr uint32_t BEFORE = O_INSERT | O_CONTAINS | O_LOOKUP | O_ERASE | O_CAPACITY | O_CLEAR;
constexpr uint32_t AFTER = INSERTS | LOOKUPS3 | O_LOOKUPC | O_ERASE | O_ERASE_O | O_ERASE_U | O_CAPACITY | O_SHRINK | O_CLEAR | O_ASSIGN;

constexpr uint32_t AFTER_Q = O_INSERT | O_EMPLACE | LOOKUPS3 | O_ERASE | O_ERASE_O | O_CAPACITY | O_SHRINK;

template <class C>
static C pass(C c) { return c; }

// A copy of a in one of the initialisation forms.
template <class C>
static C* copied(C& a, uint32_t form) {
  const C& ca = a;
  switch (form) {
    case 0: return new C(a);
    case 1: return new C(ca);
    case 2: { C b = a; return new C(std::move(b)); }
    case 3: { C b = ca; return new C(static_cast<const C&>(b)); }   // a copy of a copy that dies
    case 4: { auto b{a}; return new C(std::move(b)); }
    case 5: return new C(pass(a));
    case 6: { std::vector<C> v; v.push_back(a); return new C(v[0]); }
    default: { std::pair<int, C> p(1, ca); return new C(p.second); }
  }
}

template <class S, uint32_t A>
static void after(S& s, S& t, int steps) {
  // operations on either, or the death of either
  for (int i = 0; i < steps; i++) {
    if (sym_bool("on_copy")) t.template step<A>();
    else s.template step<A>();
  }
  s.verify();
  t.verify();
  bool order = sym_bool("which_dies");
  if (order) {
    s.own.reset();
    t.template step<LOOKUPS3 | O_INSERT | O_ERASE>();
    t.verify();
  } else {
    t.own.reset();
    s.template step<LOOKUPS3 | O_INSERT | O_ERASE>();
    s.verify();
  }
  reach("end");
}

template <class S, uint32_t B, uint32_t A>
static void construct(int n, int pre, int post) {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < pre; i++) s.template step<B>();
  uint32_t form = choice(8, "form");
  S t(copied<C>(s.c, form), s.m);
  s.verify();
  t.verify();
  CHECK(s.c == t.c && !(s.c != t.c), "a copy does not equal its source");
  after<S, A>(s, t, post);
}
template <class S, uint32_t B, uint32_t A>
static void assign(int n, int pre, int post) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < pre; i++) s.template step<B>();
  S t = S::any();
  t.prestate(2);
  if (t.m.n > 0 && sym_bool("target_used")) t.template step<O_CONTAINS>();
  switch (choice(3, "form")) {
    case 0: t.c = s.c; break;
    case 1: t.c = static_cast<const typename S::Cache&>(s.c); break;
    case 2: { auto& r = (t.c = s.c); CHECK(&r == &t.c, "assignment does not return the target"); break; }
  }
  t.m = s.m;
  s.verify();
  t.verify();
  CHECK(s.c == t.c, "an assigned copy does not equal its source");
  after<S, A>(s, t, post);
}
// up to 2 entries, an operation, copy construction in 8 forms, 1 operation on either, death of either, a lookup or insertion
ENTRY(construct_u) { construct<U<>, TIER(O_CONTAINS | O_INSERT, O_CONTAINS | O_INSERT | O_CAPACITY), TIER(AFTER_Q, AFTER)>(2, 1, TIER(1, 2)); }
// up to 2 entries, an operation, copy assignment to a cache with up to 2 entries (const or non-const source), 1 operation on either, death of either
ENTRY(assign_u) { assign<U<>, O_CONTAINS | O_INSERT, LOOKUPS3 | O_INSERT | O_ERASE | O_CAPACITY>(TIER(1, 2), 1, 1); }
// the same with two hash values
ENTRY(construct_bit) { construct<U<HBit>, O_CONTAINS, TIER(O_CONTAINS | O_INSERT | O_ERASE, LOOKUPS3 | O_INSERT | O_ERASE)>(2, 1, 1); }
// timed caches: time to live and insertion times are copied
ENTRY(construct_timed) { construct<T<>, O_CONTAINS | O_INSERT, LOOKUPS3 | O_INSERT | O_ERASE | O_CLEAR_EXPIRED>(TIER(1, 2), TIER(0, 1), 1); }
// timed caches, assignment
ENTRY(assign_timed) { assign<T<>, O_CONTAINS, O_LOOKUP | O_INSERT | O_CLEAR_EXPIRED>(1, TIER(0, 1), 1); }
// up to 3 entries, copy, then two operations on the copy while the source stays as it was, and vice versa
template <class S>
static void independent() {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(3);
  S t(copied<C>(s.c, choice(2, "form")), s.m);
  S& x = sym_bool("on_copy") ? t : s;
  x.template step<AFTER>();
  x.template step<LOOKUPS3 | O_INSERT | O_ERASE | O_SHRINK>();
  s.verify();
  t.verify();
  reach("end");
}
ENTRY(independent_u) { independent<U<>>(); }
// self assignment changes nothing
ENTRY(self) {
  U<> s = U<>::any();
  s.prestate(3);
  s.step<BEFORE>();
  auto& alias = s.c;
  if (sym_bool("const")) s.c = static_cast<const U<>::Cache&>(alias);
  else s.c = alias;
  s.verify();
  s.step<AFTER>();
  s.verify();
  T<> t = T<>::any();
  t.prestate(1);
  auto& talias = t.c;
  t.c = talias;
  t.verify();
  t.step<O_LOOKUP | O_INSERT>();
  t.verify();
  reach("end");
}
// chains: a = b = c
ENTRY(chain) {
  U<> a = U<>::any(), b = U<>::any(), c = U<>::any();
  a.prestate(1);
  b.prestate(1);
  c.prestate(2);
  a.c = b.c = c.c;
  a.m = c.m;
  b.m = c.m;
  b.own->clear();
  b.m.n = 0;
  a.verify();
  c.step<LOOKUPS3>();
  c.verify();
  a.step<O_INSERT | O_LOOKUP>();
  a.verify();
  reach("end");
}
// copying keeps monitoring and callbacks working for both, without touching freed memory
ENTRY(monitored) {
  U<> s = U<>::any();
  s.prestate(2);
  s.c.monitor(1);
  s.step<LOOKUPS3>();
  U<> t(copied<U<>::Cache>(s.c, choice(4, "form")), s.m);
  s.own.reset();
  t.step<TIER(O_CONTAINS | O_FIND, LOOKUPS3)>();
  t.step<TIER(O_CONTAINS | O_LOOKUP, LOOKUPS3)>();
  t.verify();
  reach("end");
}

// ---------------------------------------------------------------- long histories

template <class S>
static void long_copies() {
  using C = typename S::Cache;
  const Size z = any_size();
  Sequence next = any_sequence();
  S s(z.cap, z.ttl);
  busy(s, next, TIER(300, 1000), z.keys);
  const uint32_t form = choice(5, "form");
  std::unique_ptr<S> t;
  if (form < 3) {
    t.reset(new S(copied<C>(s.c, form), s.m));
  } else {
    t.reset(new S(form == 3 ? 7 : z.cap, 5));
    busy(*t, next, 50, z.keys);
    t->c = s.c;
    t->m = s.m;
  }
  s.verify();
  t->verify();
  CHECK(s.c == t->c && !(s.c != t->c), "a copy does not equal its source");
  // each goes its own way
  busy(s, next, 60, z.keys);
  busy(*t, next, 60, z.keys);
  s.verify_unordered();
  t->verify_unordered();
  S& x = sym_bool("on_copy") ? *t : s;
  if (sym_bool("other dies")) (&x == &s ? t->own : s.own).reset();
  x.template step<O_CONTAINS | O_INSERT | O_ERASE>();
  x.verify();
  if (&x == &s ? (bool)t->own : (bool)s.own) (&x == &s ? *t : s).verify();
  reach("end");
}
// after 300 (1000) fixed operations in a cache of capacity 20 or 150: copied or assigned (2 forms, to a used cache), 60 fixed operations on each, perhaps the death of one, an arbitrary lookup, insertion or erasure on the other
ENTRY(long_u) { long_copies<U<HLow>>(); }
ENTRY(long_timed) { long_copies<T<HLow>>(); }
