#define OWN (G_ITER)
#define MODEL_MAX 200
#include "long.hpp"

// Unordered iteration: every entry once, with its value.
template <class It, class S>
static void once_each(S& s, It it, It end, bool post) {
  bool seen[Model::MAX] = {};
  int n = 0;
  while (it != end) {
    int i = s.m.find(it->first);
    CHECK(i >= 0, "unordered iteration visits an entry that is not stored");
    CHECK(!seen[i], "unordered iteration visits an entry twice");
    seen[i] = true;
    CHECK((*it).second == s.m.e[i].val && it->value() == s.m.e[i].val && (*it).key() == s.m.e[i].key, "unordered iteration visits a wrong value");
    if (++n > s.m.n) break;
    if (post) it++;
    else ++it;
  }
  CHECK(n == s.m.n, "unordered iteration does not visit every entry");
}
template <class It, class S>
static void forward(S& s, It it, It end, int from, bool post) {
  int i = from;
  for (; it != end; i++) {
    CHECK(i < s.m.n, "ordered iteration visits too many entries");
    CHECK(it->first == s.m.e[i].key, "ordered iteration visits a wrong key");
    CHECK((*it).second == s.m.e[i].val, "ordered iteration visits a wrong value");
    if (post) {
      It old = it++;
      CHECK(old->first == s.m.e[i].key, "post-increment returns the wrong iterator");
    } else {
      ++it;
    }
  }
  CHECK(i == s.m.n, "ordered iteration ends early");
}
template <class It, class S>
static void backward(S& s, It it, It begin, int from, bool post) {
  int i = from;
  while (it != begin) {
    i--;
    CHECK(i >= 0, "decrementing goes beyond the beginning");
    if (post) it--;
    else --it;
    CHECK(it->first == s.m.e[i].key, "decrementing visits a wrong key");
    CHECK(it->second == s.m.e[i].val, "decrementing visits a wrong value");
  }
  CHECK(i == 0, "decrementing ends early");
}
template <class S>
static void walks(S& s) {
  auto& c = s.c;
  const auto& cc = s.c;
  bool post = sym_bool("postfix");
  switch (choice(8, "walk")) {
    case 0: once_each(s, c.unordered_begin(), c.unordered_end(), post); once_each(s, c.begin(), c.end(), post); break;
    case 1: once_each(s, cc.unordered_begin(), cc.unordered_end(), post); once_each(s, cc.begin(), cc.end(), post); break;
    case 2: once_each(s, c.unordered_cbegin(), c.unordered_cend(), post); once_each(s, c.cbegin(), c.cend(), post); break;
    case 3: forward(s, c.ordered_begin(), c.ordered_end(), 0, post); break;
    case 4: forward(s, cc.ordered_begin(), cc.ordered_end(), 0, post); forward(s, c.ordered_cbegin(), c.ordered_cend(), 0, post); break;
    case 5: backward(s, c.ordered_end(), c.ordered_begin(), s.m.n, post); break;
    case 6: backward(s, cc.ordered_cend(), cc.ordered_cbegin(), s.m.n, post); break;
    case 7: {  // to and fro
      auto it = c.ordered_begin();
      int i = 0;
      for (int j = 0; j < 4; j++) {
        bool up = sym_bool("up");
        if (up) { if (i >= s.m.n) continue; ++it; i++; }
        else { if (i == 0) continue; --it; i--; }
        if (i < s.m.n) {
          CHECK(it->first == s.m.e[i].key && it->second == s.m.e[i].val, "going to and fro reaches a wrong entry");
          CHECK(it != c.ordered_end(), "an iterator to an entry equals the end");
        } else {
          CHECK(it == c.ordered_end(), "the iterator is not at the end");
        }
      }
      break;
    }
  }
}

template <class S, uint32_t Ops>
static void history(int n, int k) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  walks(s);
  s.verify();
  reach("end");
}
constexpr uint32_t CORE = O_INSERT | O_EMPLACE | LOOKUPS3 | ERASES | O_CAPACITY | O_SHRINK | O_CLEAR | O_ASSIGN;
// any capacity, up to 3 entries, 1 (2) operations, any of 8 kinds of walks, prefix or postfix
ENTRY(walks_u) { history<U<>, CORE | O_RANGE | O_ASSIGN_RANGE>(3, TIER(1, 2)); }
// 2 operations, up to 2 entries
ENTRY(walks_two) { history<U<>, CORE>(2, 2); }
// two hash values
ENTRY(walks_bit) { history<U<HBit>, O_INSERT | O_CONTAINS | O_ERASE>(3, 1); }
// timed caches: expired entries are visited like others
ENTRY(walks_timed) { history<T<>, CORE | O_CLEAR_EXPIRED>(2, TIER(1, 2)); }

// An entry reached by find, insertion or unordered iteration, converted.
template <class S>
static void conversions(int n) {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(n);
  s.template step<LOOKUPS3 | O_INSERT>();
  auto& c = s.c;
  const auto& cc = s.c;
  if (s.m.n == 0) ASSUME(false);
  auto u = c.unordered_begin();
  for (uint32_t j = choice(s.m.n, "position"); j > 0; j--) ++u;
  int k = u->first;
  int i = s.m.find(k);
  CHECK(i >= 0, "unordered iteration visits an entry that is not stored");
  typename C::UnorderedConstIterator uc(u);
  CHECK(uc == u && u == uc && uc->first == k, "a const iterator made from another refers to something else");
  bool deref = sym_bool("dereferenced");
  typename C::UnorderedIterator plain = c.unordered_begin();
  while (!(plain == u)) ++plain;
  auto& src = deref ? u : plain;
  switch (choice(7, "conversion")) {
    case 0: { typename C::OrderedIterator o(src); forward(s, o, c.ordered_end(), i, false); backward(s, o, c.ordered_begin(), i, false); break; }
    case 1: { typename C::OrderedConstIterator o(src); forward(s, o, c.ordered_cend(), i, false); backward(s, o, c.ordered_cbegin(), i, true); break; }
    case 2: { typename C::OrderedConstIterator o(uc); forward(s, o, cc.ordered_cend(), i, true); backward(s, o, cc.ordered_cbegin(), i, false); break; }
    case 3: {
      typename C::OrderedIterator o(src);
      if (deref) obs((uint32_t)o->first);
      typename C::OrderedConstIterator oc(o);
      CHECK(oc->first == k && oc->second == s.m.e[i].val, "a const ordered iterator made from another refers to something else");
      CHECK(oc == typename C::OrderedConstIterator(o), "equal iterators differ");
      forward(s, oc, cc.ordered_cend(), i, false);
      break;
    }
    case 4: {  // copies and assignments of iterators that were dereferenced
      auto a = c.ordered_begin();
      obs((uint32_t)a->first);
      typename C::OrderedIterator b(src);
      if (deref) obs((uint32_t)b->second);
      a = b;
      CHECK(a == b && a->first == k && a->second == s.m.e[i].val, "an assigned iterator refers to something else");
      auto d = a;
      CHECK(d->first == k, "a copied iterator refers to something else");
      auto e = std::move(d);
      CHECK(e->first == k && (*e).second == s.m.e[i].val, "a moved iterator refers to something else");
      auto f = c.unordered_begin();
      obs((uint32_t)f->first);
      f = src;
      CHECK(f == src && f->first == k && f.value() == s.m.e[i].val, "an assigned unordered iterator refers to something else");
      break;
    }
    case 5: {  // swapped iterators, dereferenced or not
      auto a = c.ordered_begin();
      int first = s.m.e[0].key, firstv = s.m.e[0].val;
      if (sym_bool("dereferenced")) obs((uint32_t)a->first);
      typename C::OrderedIterator b(src);
      if (sym_bool("dereferenced")) obs((uint32_t)b->second);
      auto x = c.unordered_begin();
      int xk = c.unordered_begin()->first;
      if (sym_bool("dereferenced")) obs((uint32_t)x->first);
      auto y = src;
      using std::swap;
      switch (choice(3, "swap")) {
        case 0: a.swap(b); x.swap(y); break;
        case 1: swap(a, b); swap(x, y); break;
        case 2: std::swap(a, b); std::swap(x, y); break;
      }
      CHECK(a->first == k && a->second == s.m.e[i].val && (*a).first == k, "a swapped iterator refers to something else");
      CHECK(b->first == first && b->second == firstv, "a swapped iterator refers to something else");
      CHECK(b == c.ordered_begin() && (a == b) == (i == 0), "a swapped iterator compares wrongly");
      CHECK(x == src && x->first == k && y->first == xk && y == c.unordered_begin(), "a swapped unordered iterator refers to something else");
      forward(s, a, c.ordered_end(), i, false);
      backward(s, b, c.ordered_begin(), 0, false);
      break;
    }
    case 6: {  // const iterators made from expiring ones
      typename C::OrderedIterator o(src);
      bool od = sym_bool("dereferenced");
      if (od) obs((uint32_t)o->second);
      typename C::OrderedConstIterator oc(std::move(o));
      CHECK(oc->first == k && oc->second == s.m.e[i].val, "a const ordered iterator made from another refers to something else");
      auto moved = plain;
      typename C::UnorderedConstIterator y(std::move(moved));
      CHECK(y == src && y->first == k && y->second == s.m.e[i].val, "a const unordered iterator made from another refers to something else");
      typename C::OrderedConstIterator z;
      z = typename C::OrderedConstIterator(typename C::OrderedIterator(src));
      CHECK(z == oc && z->first == k, "an assigned iterator refers to something else");
      backward(s, oc, c.ordered_cbegin(), i, false);
      break;
    }
  }
  s.verify();
  reach("end");
}
// up to 3 entries, an operation, any entry (found by unordered iteration, dereferenced or not), 7 kinds of conversion, walked in both directions
ENTRY(conversions_u) { conversions<U<>>(TIER(2, 3)); }
ENTRY(conversions_bit) { conversions<U<HBit>>(2); }
// timed (no entry expired: key() and value() are not used on expired ones)
ENTRY(conversions_timed) {
  using S = T<>;
  S s(sym_size("capacity"), 1000);
  s.prestate(2);
  if (s.m.n == 0) ASSUME(false);
  auto u = s.c.unordered_begin();
  int k = u->first, i = s.m.find(k);
  typename S::Cache::OrderedIterator o(u);
  forward(s, o, s.c.ordered_end(), i, false);
  typename S::Cache::OrderedConstIterator oc(o);
  backward(s, oc, s.c.ordered_cbegin(), i, false);
  reach("end");
}

// ordered against unordered iterators
template <class S>
static void comparisons(int n) {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(n);
  s.template step<O_CONTAINS | O_INSERT | O_ERASE>();
  auto& c = s.c;
  const auto& cc = s.c;
  uint32_t p = choice(s.m.n + 1, "ordered_position"), q = choice(s.m.n + 1, "unordered_position");
  auto o = c.ordered_begin();
  for (uint32_t j = 0; j < p; j++) ++o;
  auto u = c.unordered_begin();
  for (uint32_t j = 0; j < q; j++) ++u;
  typename C::OrderedConstIterator oc(o);
  typename C::UnorderedConstIterator uc(u);
  bool oe = p == (uint32_t)s.m.n, ue = q == (uint32_t)s.m.n;
  CHECK((o == c.ordered_end()) == oe && (u == c.unordered_end()) == ue, "an iterator at an entry equals the end or the reverse");
  bool want = oe || ue ? oe && ue : o->first == u->first;
  obs(want);
  CHECK((o == u) == want && (u == o) == want, "ordered and unordered iterators compare wrongly");
  CHECK((o != u) != want && (u != o) != want, "!= of ordered and unordered iterators is not the negation of ==");
  CHECK((oc == uc) == want && (uc == oc) == want && (oc != uc) != want && (uc != oc) != want, "const ordered and unordered iterators compare wrongly");
  CHECK((o == c.ordered_begin()) == (p == 0) && (u == c.unordered_begin()) == (q == 0), "an iterator compares wrongly with the beginning");
  // against another cache with the same contents
  C other(4);
  other.insert(1, 1);
  CHECK(!(other.ordered_begin() == u) && !(o == other.unordered_begin()), "iterators of different caches compare equal");
  CHECK(!(other.ordered_end() == u) && other.ordered_end() != u && !(o == other.unordered_end()), "end iterators of different caches compare equal");
  s.verify();
  reach("end");
}
ENTRY(comparisons_u) { comparisons<U<>>(3); }
ENTRY(comparisons_bit) { comparisons<U<HBit>>(2); }

// converting an end iterator throws and changes nothing
template <class S>
static void ends() {
  using C = typename S::Cache;
  S s(sym_size("capacity"), 1000);
  s.prestate(2);
  s.template step<O_CONTAINS | O_ERASE>();
  auto& c = s.c;
  const auto& cc = s.c;
  int thrown = 0;
  auto u = c.unordered_end();
  auto uc = cc.unordered_end();
  auto f = c.find(12345);
  bool miss = f == c.end();
  s.expect_lookup(12345);
  try { typename C::OrderedIterator o(c.unordered_end()); } catch (const LRU::Error::InvalidIteratorConversion&) { thrown++; }
  try { typename C::OrderedIterator o(u); } catch (const LRU::Error::InvalidIteratorConversion&) { thrown++; }
  try { typename C::OrderedConstIterator o(u); } catch (const LRU::Error::InvalidIteratorConversion&) { thrown++; }
  try { typename C::OrderedConstIterator o(uc); } catch (const LRU::Error::InvalidIteratorConversion&) { thrown++; }
  try { typename C::OrderedConstIterator o(cc.unordered_cend()); } catch (const LRU::Error::InvalidIteratorConversion&) { thrown++; }
  CHECK(thrown == 5, "converting an end iterator does not throw InvalidIteratorConversion");
  if (miss) {
    thrown = 0;
    try { typename C::OrderedIterator o(f); } catch (const LRU::Error::InvalidIteratorConversion&) { thrown++; }
    CHECK(thrown == 1, "converting an end iterator does not throw InvalidIteratorConversion");
  }
  // an entry just before the end of a non-empty cache does convert
  if (s.m.n > 0) {
    typename C::OrderedIterator o(c.unordered_begin());
    CHECK(o != c.ordered_end(), "a converted iterator equals the end");
  }
  s.verify();
  reach("end");
}
ENTRY(ends_u) { ends<U<>>(); }
ENTRY(ends_timed) { ends<T<>>(); }
// 10 (20) entries with concrete keys, 2 uses, every walk
ENTRY(large) {
  const int n = TIER(10, 20);
  U<HLow> s(n);
  for (int i = 0; i < n; i++) s.insert(i * 3, i);
  s.lookup(O_CONTAINS, sym_int("key"));
  { int k = sym_int("key"); s.insert(k, 7); }
  walks(s);
  reach("end");
}

// ---------------------------------------------------------------- long histories

template <class S>
static void after_many() {
  const Size z = any_size();
  Sequence next = any_sequence();
  S s(z.cap, z.ttl);
  busy(s, next, TIER(500, 1500), z.keys);
  s.tick();
  s.perform(1u << nth_bit(TIER(O_CONTAINS | O_ERASE, LOOKUPS3 | O_INSERT | O_ERASE), choice(TIER(2, 5), "operation")));
  walks(s);
  s.verify();
  reach("end");
}
// 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup or erasure (or insertion), any of 8 kinds of walks
ENTRY(after_many_u) { after_many<U<HLow>>(); }
ENTRY(after_many_timed) { after_many<T<HLow>>(); }
