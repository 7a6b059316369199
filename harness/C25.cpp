// C25: entries and insertion results are faithful views of what is stored.
#define OWN (G_VALUE | G_INSERT | G_ITER)
#include "hist.hpp"
#include <string>

template <class E, class K, class V>
static void view(E&& e, const K* k, const V* v) {
  const auto& ce = e;
  CHECK(&e.first == k && &e.key() == k && &ce.key() == k && &ce.first == k, "the key of an entry is not the stored key");
  CHECK(&e.second == v && &e.value() == v && &ce.value() == v && &ce.second == v, "the value of an entry is not the stored value");
}
// Comparison with pairs and other entries, of the same and of other types.
template <class E>
static void compares(const E& e, int k, int v) {
  const int pk = sym_int("other key"), pv = sym_int("other value");
  const bool same = k == pk && v == pv;
  const std::pair<int, int> p(pk, pv);
  const std::pair<const int, long> q(pk, pv);
  const LRU::Entry<const int, const int> x(pk, pv);
  int w = pv;
  const LRU::Entry<int, int> y(pk, w);
  switch (choice(6, "compared with")) {
    case 0:
      CHECK((e == p) == same, "an entry compares wrongly with a pair");
      CHECK((e != p) == !same, "an entry compares wrongly with a pair");
      break;
    case 1:
      CHECK((p == e) == same, "a pair compares wrongly with an entry");
      CHECK((p != e) == !same, "a pair compares wrongly with an entry");
      break;
    case 2:
      CHECK((e == q) == same && (q == e) == same, "an entry compares wrongly with a pair of other types");
      CHECK((e != q) == !same && (q != e) == !same, "an entry compares wrongly with a pair of other types");
      break;
    case 3:
      CHECK((e == x) == same && (x == e) == same, "two entries compare wrongly");
      CHECK((e != x) == !same && (x != e) == !same, "two entries compare wrongly");
      break;
    case 4:
      CHECK((e == y) == same && (y == e) == same, "two entries compare wrongly");
      CHECK((e != y) == !same && (y != e) == !same, "two entries compare wrongly");
      break;
    case 5: {
      const E f(e);
      CHECK(f == e && !(f != e), "an entry differs from its copy");
      CHECK(&f.first == &e.first && &f.second == &e.second, "the copy of an entry refers to something else");
      break;
    }
  }
}
// The entry that it points at: key k and value v, stored at these addresses.
template <class S, class It>
static void dereference(S& s, It it, bool writable_, const int* kp, const int* vp, int k, int v) {
  (void)writable_;
  view(*it, kp, vp);
  CHECK(&it->first == kp && &it->second == vp, "operator-> gives another entry than operator*");
  CHECK(&it->key() == kp && &it->value() == vp, "operator-> gives another entry than operator*");
  CHECK((*it).first == k && (*it).second == v, "an entry has another key or value");
  obs((*it).value());
  compares(*it, k, v);
}
template <class S>
static void views() {
  S s(3, 1ll << 40);
  s.prestate(TIER(2, 3), true);
  for (int j = 0; j < TIER(1, 2); j++) s.template step<O_INSERT | O_EMPLACE | O_FIND | O_LOOKUPC | O_ERASE>();
  if (s.m.n == 0) ASSUME(false);
  auto& c = s.c;
  const auto& cc = c;
  const int i = choice(s.m.n, "entry");
  const int k = s.m.e[i].key, v = s.m.e[i].val;
  auto f = c.find(k);
  const int* kp = &f->first;
  int* vp = &f->second;
  CHECK(&c.lookup(k) == vp && &c[k] == vp && &cc.lookup(k) == vp && &cc[k] == vp, "lookup returns something else than the stored value");
  switch (choice(4, "iterator")) {
    case 0: dereference(s, f, true, kp, vp, k, v); break;
    case 1: dereference(s, cc.find(k), false, kp, vp, k, v); break;
    case 2: dereference(s, typename S::Cache::OrderedIterator(f), true, kp, vp, k, v); break;
    case 3: dereference(s, typename S::Cache::OrderedConstIterator(f), false, kp, vp, k, v); break;
  }
  // the ways to write through an entry
  const int nv = sym_int("new value");
  typename S::Cache::OrderedIterator o(f);
  switch (choice(9, "write through")) {
    case 0: (*f).second = nv; break;
    case 1: f->value() = nv; break;
    case 2: { auto e = *f; e.value() = nv; break; }
    case 3: (*o).second = nv; break;
    case 4: o->value() = nv; break;
    case 5: { std::pair<const int&, int&> p = *f; CHECK(&p.first == kp && &p.second == vp, "an entry converts to a pair of other references"); p.second = nv; break; }
    case 6: { std::pair<const int&, int&> p = *o; CHECK(&p.first == kp && &p.second == vp, "an entry converts to a pair of other references"); p.second = nv; break; }
    case 7: f.value() = nv; break;
    case 8: o.value() = nv; break;
  }
  CHECK(*vp == nv, "a value written through an entry is not stored");
  CHECK(cc.find(k)->second == nv, "a value written through an entry is not found");
  for (auto it = cc.begin(); it != cc.end(); ++it) {
    const int j = s.m.find(it->first);
    ASSUME(j >= 0);
    CHECK(it->second == (j == i ? nv : s.m.e[j].val), "writing through an entry changes another entry");
  }
  // entries of non-const values convert to entries of const values
  LRU::Entry<const int, const int> e1(*f);
  LRU::Entry<const int, const int> e2 = *o;
  view(e1, kp, vp);
  view(e2, kp, vp);
  std::pair<const int&, const int&> p1 = e1;
  CHECK(&p1.first == kp && &p1.second == vp, "a const entry converts to a pair of other references");
  reach("end");
}
// 2 (3) insertions, 1 (2) operations; entries with arbitrary keys and values; every iterator kind, comparison with arbitrary pairs and entries, every way to write
ENTRY(views_u) { views<U<>>(); }
ENTRY(views_t) { views<T<>>(); }
// Entries made by hand, of any key and value types.
// Iterators that have referred to something else before: assigned, moved, exchanged or advanced.
template <class It, class Make>
static void rebound(Make make, int n, const int** kp, const int** vp) {
  // `make(i)` points at the entry with key kp[i]
  const int i = choice(n, "first"), j = choice(n, "second");
  It a = make(i), b = make(j);
  if (sym_bool("first dereferenced")) view(*a, kp[i], vp[i]);
  if (sym_bool("second dereferenced")) view(*b, kp[j], vp[j]);
  int at = j, other = j;
  switch (choice(9, "how")) {
    case 0: a = b; break;
    case 1: { It x(b); a = std::move(x); break; }
    case 2: { using std::swap; swap(a, b); other = i; break; }
    case 3: std::swap(a, b); other = i; break;
    case 4: a = static_cast<const It&>(b); a = static_cast<It&>(a); break;
    case 5: if (i + 1 >= n) ASSUME(false); ++a; at = i + 1; break;
    case 6: { if (i + 1 >= n) ASSUME(false); It x(a++); view(*x, kp[i], vp[i]); at = i + 1; break; }
    case 7: { It x(std::move(a)); view(*x, kp[i], vp[i]); a = b; break; }
    case 8: { It x; x = a; view(*x, kp[i], vp[i]); x = b; view(*x, kp[j], vp[j]); a = x; break; }
  }
  view(*a, kp[at], vp[at]);
  CHECK(&a->first == kp[at] && &a->second == vp[at] && &a.key() == kp[at] && &a.value() == vp[at] && &a.entry().second == vp[at], "an iterator gives another entry than the one it refers to");
  view(*b, kp[other], vp[other]);
}
template <class S>
static void rebinding() {
  using C = typename S::Cache;
  S s(3, 1ll << 40);
  s.prestate(3, true);
  if (s.m.n == 0) ASSUME(false);
  auto& c = s.c;
  const C& cc = c;
  const int n = s.m.n;
  const int *ko[3], *vo[3], *ku[3], *vu[3];
  int i = 0;
  for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it, ++i) { ko[i] = &it->first; vo[i] = &it->second; }
  i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) { ku[i] = &it->first; vu[i] = &it->second; }
  const auto step = [](auto it, int k) { for (; k > 0; k--) ++it; return it; };
  switch (choice(4, "iterator")) {
    case 0: rebound<typename C::OrderedIterator>([&](int k) { return step(c.ordered_begin(), k); }, n, ko, vo); break;
    case 1: rebound<typename C::OrderedConstIterator>([&](int k) { return step(cc.ordered_begin(), k); }, n, ko, vo); break;
    case 2: rebound<typename C::UnorderedIterator>([&](int k) { return step(c.begin(), k); }, n, ku, vu); break;
    case 3: rebound<typename C::UnorderedConstIterator>([&](int k) { return step(cc.begin(), k); }, n, ku, vu); break;
  }
  reach("end");
}
// up to 3 entries, two iterators of every kind, dereferenced or not, then assigned, moved, swapped or advanced in 9 ways and dereferenced again
ENTRY(rebinding_u) { rebinding<U<>>(); }
ENTRY(rebinding_t) { rebinding<T<>>(); }

// entries over 32- and 64-bit numbers and strings
ENTRY(by_hand) {
  const size_t k = sym_size("key"), k2 = sym_size("key");
  size_t v = sym_size("value"), v2 = sym_size("value");
  LRU::Entry<size_t, size_t> a(k, v), b(k2, v2);
  CHECK(&a.first == &k && &a.second == &v && &a.key() == &k && &a.value() == &v, "an entry refers to something else");
  CHECK((a == b) == (k == k2 && v == v2) && (a != b) == !(a == b), "two entries compare wrongly");
  LRU::Entry<size_t, const size_t> c(a);
  CHECK(&c.first == &k && &c.second == &v, "a converted entry refers to something else");
  CHECK((c == b) == (a == b) && (b == c) == (a == b), "two entries compare wrongly");
  a.value() = v2;
  CHECK(v == v2 && c.second == v2, "an entry does not see a value that was written");
  CHECK((a == b) == (k == k2), "two entries compare wrongly");
  static_assert(std::is_same<LRU::Entry<int, long>::KeyType, int>::value && std::is_same<LRU::Entry<int, long>::ValueType, long>::value, "");
  static_assert(std::is_same<LRU::Entry<int, long>::first_type, int>::value && std::is_same<LRU::Entry<int, long>::second_type, long>::value, "");
  std::string sk(1, (char)choice(2, "letter")), sv = "value";
  LRU::Entry<std::string, std::string> d(sk, sv);
  CHECK(d == std::make_pair(std::string(1, sk[0]), std::string("value")), "an entry differs from an equal pair");
  CHECK(d != std::make_pair(std::string("xy"), std::string("value")), "an entry equals a pair with another key");
  CHECK(d != std::make_pair(sk, std::string("other")), "an entry equals a pair with another value");
  reach("end");
}
template <class R, class S>
static void result(S& s, R r, bool fresh, int k, int v) {
  const R& cr = r;
  CHECK(r.first == fresh && cr.was_inserted() == fresh && static_cast<bool>(cr) == fresh, "the members of an insertion result disagree about whether the key was inserted");
  CHECK(!r == !fresh, "an insertion result converts to the wrong bool");
  CHECK(cr.iterator() == r.second && r.second == cr.iterator(), "the members of an insertion result hold different iterators");
  if (s.m.cap == 0) {
    CHECK(r.second == s.c.end(), "an insertion into a cache of capacity 0 returns an iterator to something");
  } else {
    const int i = s.m.n - 1;
    CHECK(r.second != s.c.end(), "an insertion returns the end");
    CHECK(r.second->first == s.m.e[i].key && r.iterator()->first == s.m.e[i].key, "an insertion returns an iterator to another key");
    CHECK(r.second->second == v && (*r.iterator()).second == v, "an insertion returns an iterator to another value");
    CHECK(&r.second->second == &s.c.find(k)->second, "an insertion returns an iterator to something else than what is stored");
    // through the result the stored value can be changed
    int nv = sym_int("new value");
    r.iterator()->second = nv;
    s.m.e[i].val = nv;
    CHECK(&s.c.lookup(k) == &r.second.value() && s.c.lookup(k) == nv, "a value written through an insertion result is not stored");
  }
  R q(r);
  CHECK(q.first == r.first && q.second == r.second, "the copy of an insertion result differs");
}
template <class S>
static void results() {
  S s(sym_size("capacity"), 1ll << 40);
  s.prestate(2);
  const int k = sym_int("key");
  const int v = sym_int("value");
  const bool fresh = s.m.insert(k, v);
  switch (choice(4, "form")) {
    case 0: result(s, s.c.insert(k, v), fresh, k, v); break;
    case 1: result(s, s.c.emplace(k, v), fresh, k, v); break;
    case 2: result(s, s.c.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)), fresh, k, v); break;
    case 3: {
      LRU::InsertionResult<typename S::Cache::UnorderedIterator> r = s.c.insert(k, v);
      result(s, r, fresh, k, v);
      LRU::InsertionResult<int> h(sym_bool("flag"), v);
      CHECK(h.iterator() == v && h.second == v && h.was_inserted() == h.first, "an insertion result holds something else");
      break;
    }
  }
  s.verify();
  reach("end");
}
// any capacity, up to 2 entries, one insertion of every form
ENTRY(results_u) { results<U<>>(); }
ENTRY(results_t) { results<T<>>(); }
// Range-for over caches and standard algorithms see the stored entries.
// up to 3 entries
ENTRY(ranges) {
  U<> s(3);
  s.prestate(3);
  auto& c = s.c;
  const auto& cc = c;
  int n = 0;
  for (const auto& e : cc) {
    const int j = s.m.find(e.first);
    CHECK(j >= 0 && e.second == s.m.e[j].val && e.key() == e.first && e.value() == e.second, "iteration gives an entry that is not stored");
    n++;
  }
  for (auto& e : c) e.second += 1;
  for (auto e : c) e.value() += 1;
  CHECK(n == s.m.n, "iteration does not visit every entry");
  const int k = sym_int("key");
  auto it = std::find_if(c.begin(), c.end(), [k](const auto& e) { return e.first == k; });
  auto jt = std::find_if(cc.ordered_begin(), cc.ordered_end(), [k](const auto& e) { return e.first == k; });
  const int i = s.m.find(k);
  CHECK((it == c.end()) == (i < 0) && (jt == cc.ordered_end()) == (i < 0), "a search through the iterators misses an entry or finds one that is not there");
  if (i >= 0) CHECK(it->second == s.m.e[i].val + 2 && jt->second == s.m.e[i].val + 2 && *it == *jt, "a value written during iteration is not stored");
  std::vector<std::pair<int, int>> v;
  for (auto o = cc.ordered_cbegin(); o != cc.ordered_cend(); ++o) v.emplace_back(o->first, o->second);
  CHECK(v.size() == (size_t)s.m.n, "iteration does not visit every entry");
  for (int j = 0; j < s.m.n; j++) CHECK(v[j].first == s.m.e[j].key && v[j].second == s.m.e[j].val + 2, "the copied entries differ from the stored ones");
  CHECK(std::equal(v.begin(), v.end(), cc.ordered_begin()), "pairs copied from the entries differ from them");
  reach("end");
}
