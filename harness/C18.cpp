// C18: range and list operations equal inserting element by element.
#include "hist.hpp"
#include <list>
#include <map>

// A number that shows when it has been moved from.
struct P {
  int v;
  P(int x) : v(x) {}
  P(const P&) = default;
  P(P&& o) noexcept : v(o.v) { o.v = -777; }
  P& operator=(const P&) = default;
  P& operator=(P&& o) noexcept {
    int x = o.v;
    o.v = -777;
    v = x;
    return *this;
  }
  operator int() const { return v; }
};
namespace std {
template <> struct hash<P> { size_t operator()(const P&) const noexcept { return 0; } };
}
struct HP { size_t operator()(const P&) const { return 0; } };
template <class K> struct HashOf { using type = HConst; };
template <> struct HashOf<P> { using type = HP; };

template <class X> using UC = LRU::Cache<X, X, typename HashOf<X>::type>;
template <class X> using TC = LRU::TimedCache<X, X, NS, typename HashOf<X>::type>;

template <class C> struct Make;
template <class X>
struct Make<UC<X>> {
  static constexpr bool timed = false;
  template <class... A> static UC<X>* make(int64_t, A&&... a) { return new UC<X>(std::forward<A>(a)...); }
  static UC<X>* list(int64_t, size_t cap, bool given, std::initializer_list<std::pair<X, X>> l) { return given ? new UC<X>(cap, l) : new UC<X>(l); }
};
template <class X>
struct Make<TC<X>> {
  static constexpr bool timed = true;
  template <class... A> static TC<X>* make(int64_t ttl, A&&... a) { return new TC<X>(NS(ttl), std::forward<A>(a)...); }
  static TC<X>* list(int64_t ttl, size_t cap, bool given, std::initializer_list<std::pair<X, X>> l) { return given ? new TC<X>(NS(ttl), cap, l) : new TC<X>(NS(ttl), l); }
};

// The elements of the range under test.
struct Elements {
  static constexpr int MAX = 5;
  int n = 0;
  int k[MAX], v[MAX];
  Elements(int m) {
    n = m;
    for (int i = 0; i < n; i++) {
      k[i] = sym_int("key");
      v[i] = 100 + i;
    }
  }
};
template <class X>
static std::vector<std::pair<X, X>> vec(const Elements& e) {
  std::vector<std::pair<X, X>> r;
  r.reserve(e.n);
  for (int i = 0; i < e.n; i++) r.emplace_back(e.k[i], e.v[i]);
  return r;
}
template <class V>
static void unmodified(const V& v, const Elements& e) {
  int i = 0;
  for (auto& x : v) {
    CHECK((int)x.first == e.k[i] && (int)x.second == e.v[i], "the source range was modified");
    i++;
  }
  CHECK(i == e.n, "the source range was resized");
}
template <class C>
struct Sys18 {
  using S = Sys<C, Make<C>::timed>;
  // Compares, then looks a key up at a later time and inserts another one.
  static void finish(S& s) {
    s.verify();
    if (Make<C>::timed) s.tick();
    s.lookup(O_CONTAINS, sym_int("key"));
    if (TIER(s.m.n < 3, true)) {
      int k = sym_int("key");
      s.insert(k, 55);
    }
    s.verify();
    reach("end");
  }
};
enum Form { ITERS, LVALUE, CONST_LVALUE, RVALUE, CONST_RVALUE, LIST, LINKED, FORMS };

// Construction.
template <class C, class X>
static void construct(int n) {
  using M = Make<C>;
  using S = typename Sys18<C>::S;
  int64_t ttl = M::timed ? any_ttl() : 0;
  if (M::timed) __sym_now_ns += any_elapsed();
  int len = choice(n + 1, "length");
  Elements e(len);
  auto src = vec<X>(e);
  const auto& csrc = src;
  bool given = sym_bool("capacity_given");
  size_t cap = given ? sym_size("capacity") : 0;
  C* p = nullptr;
  int form = choice(FORMS, "form");
  size_t least = 0, most = ~(size_t)0;
  switch (form) {
    case ITERS:
      p = given ? M::make(ttl, cap, src.begin(), src.end()) : M::make(ttl, src.begin(), src.end());
      least = U<>::Cache().capacity();
      break;
    case LVALUE:
      p = given ? M::make(ttl, cap, src) : M::make(ttl, src);
      least = U<>::Cache().capacity();
      break;
    case CONST_LVALUE:
      p = given ? M::make(ttl, cap, csrc) : M::make(ttl, csrc);
      least = U<>::Cache().capacity();
      break;
    case RVALUE:
      p = given ? M::make(ttl, cap, std::move(src)) : M::make(ttl, std::move(src));
      least = most = len;
      break;
    case CONST_RVALUE:
      p = given ? M::make(ttl, cap, std::move(csrc)) : M::make(ttl, std::move(csrc));
      least = most = len;
      break;
    case LIST:
      switch (len) {
        case 1: p = M::list(ttl, cap, given, {{e.k[0], e.v[0]}}); break;
        case 2: p = M::list(ttl, cap, given, {{e.k[0], e.v[0]}, {e.k[1], e.v[1]}}); break;
        case 3: p = M::list(ttl, cap, given, {{e.k[0], e.v[0]}, {e.k[1], e.v[1]}, {e.k[2], e.v[2]}}); break;
        default: p = M::list(ttl, cap, given, {}); for (int i = len = e.n = 0; i < 1; i++) src.clear(); break;
      }
      least = most = len;
      break;
    case LINKED: {
      std::list<std::pair<X, X>> l(src.begin(), src.end());
      p = given ? M::make(ttl, cap, l.begin(), l.end()) : M::make(ttl, l);
      unmodified(l, e);
      least = U<>::Cache().capacity();
      break;
    }
  }
  Model m;
  m.timed = M::timed;
  m.ttl = ttl;
  m.cap = given ? cap : p->capacity();
  if (given) CHECK(p->capacity() == cap, "the given capacity is not used");
  else {
    CHECK(p->capacity() >= least, "the inferred capacity is too small");
    CHECK(p->capacity() <= most, "the inferred capacity is too large");
    CHECK(p->capacity() >= (size_t)len, "the inferred capacity is less than the number of elements");
  }
  for (int i = 0; i < len; i++) m.insert(e.k[i], e.v[i]);
  if (form != RVALUE) unmodified(src, e);
  S s(p, m);
  Sys18<C>::finish(s);
}
// every constructor from a range or list, any capacity, up to 3 (4) elements, any keys; then a lookup and an insertion
ENTRY(construct_u) { construct<UC<P>, P>(TIER(4, 5)); }
ENTRY(construct_timed) { construct<TC<P>, P>(TIER(2, 3)); }

// Insertion into and assignment to a cache with a history.
template <class C, class X>
static void modify(int before, int n, bool assign) {
  using M = Make<C>;
  using S = typename Sys18<C>::S;
  S s = S::any();
  s.prestate(before);
  if (before && sym_bool("use")) s.lookup(O_LOOKUP, sym_int("key"));
  s.tick();
  int len = choice(n + 1, "length");
  Elements e(len);
  auto src = vec<X>(e);
  const auto& csrc = src;
  Model& m = s.m;
  C& c = s.c;
  int form = choice(FORMS, "form");
  if (form == LIST && len == 0) ASSUME(false);
  if (assign) {
    if (form == ITERS) ASSUME(false);
    m.n = 0;
    if (m.cap < (size_t)len) m.cap = len;
  }
  size_t fresh = 0, r = 0;
  for (int i = 0; i < len; i++) fresh += m.insert(e.k[i], e.v[i]);
  C* self = &c;
  switch (form) {
    case ITERS: r = c.insert(src.begin(), src.end()); break;
    case LVALUE: if (assign) self = static_cast<C*>(&(c = src)); else r = c.insert(src); break;
    case CONST_LVALUE: if (assign) c = csrc; else r = c.insert(csrc); break;
    case RVALUE: if (assign) c = std::move(src); else r = c.insert(std::move(src)); break;
    case CONST_RVALUE: if (assign) c = std::move(csrc); else r = c.insert(std::move(csrc)); break;
    case LIST:
      switch (len) {
        case 1: if (assign) c = {{e.k[0], e.v[0]}}; else r = c.insert({{e.k[0], e.v[0]}}); break;
        case 2: if (assign) c = {{e.k[0], e.v[0]}, {e.k[1], e.v[1]}}; else r = c.insert({{e.k[0], e.v[0]}, {e.k[1], e.v[1]}}); break;
        default: if (assign) c = {{e.k[0], e.v[0]}, {e.k[1], e.v[1]}, {e.k[2], e.v[2]}}; else r = c.insert({{e.k[0], e.v[0]}, {e.k[1], e.v[1]}, {e.k[2], e.v[2]}}); break;
      }
      break;
    case LINKED: {
      std::list<std::pair<X, X>> l(src.begin(), src.end());
      if (assign) c = l;
      else if (sym_bool("range")) r = c.insert(l);
      else r = c.insert(l.begin(), l.end());
      unmodified(l, e);
      break;
    }
  }
  CHECK(self == &c, "assignment does not return the cache");
  if (!assign) {
    obs(r);
    CHECK(r == fresh, "the number of newly inserted elements is wrong");
  }
  if (form != RVALUE) unmodified(src, e);
  Sys18<C>::finish(s);
}
// every range insertion, any capacity, up to 2 prior entries, up to 2 (3) elements
ENTRY(insert_u) { modify<UC<P>, P>(2, 3, false); }
ENTRY(insert_timed) { modify<TC<P>, P>(TIER(1, 2), 2, false); }
// up to 1 prior entry, up to 3 elements
ENTRY(insert3_u) { modify<UC<P>, P>(1, 3, false); }
// every range assignment, any capacity, up to 1 (2) prior entries, up to 2 (3) elements
ENTRY(assign_u) { modify<UC<P>, P>(TIER(1, 2), TIER(2, 3), true); }
ENTRY(assign_timed) { modify<TC<P>, P>(1, 2, true); }
// a std::map as source
ENTRY(map_source) {
  std::map<int, int> src;
  int n = choice(3, "elements");
  for (int i = 0; i < n; i++) src[i * 2 + 1] = i;
  U<> s = U<>::any();
  s.prestate(1);
  const bool assign = sym_bool("assign"), rvalue = sym_bool("rvalue");
  if (assign) {
    s.m.n = 0;
    if (s.m.cap < (size_t)n) s.m.cap = n;
  }
  for (auto& x : src) s.m.insert(x.first, x.second);
  std::map<int, int> copy(src);
  if (assign) { if (rvalue) s.c = std::move(copy); else s.c = copy; }
  else { if (rvalue) s.c.insert(std::move(copy)); else s.c.insert(copy); }
  if (!rvalue) CHECK(copy == src, "the source range was modified");
  Sys18<UC<int>>::finish(s);
}

// ---------------------------------------------------------------- caches as ranges
// The source's elements in unordered iteration order.
template <class C>
static int elements(const C& c, int* k, int* v) {
  int n = 0;
  for (auto it = c.begin(); it != c.end(); ++it) {
    if (n >= 4) __sym_fail("iteration does not end");
    k[n] = it->first;
    v[n] = it->second;
    n++;
  }
  return n;
}
// from: source type, into: destination type
template <class From, class Into>
static void from_cache(bool ordered) {
  From f(3, 100000);
  f.prestate(2);
  int k[4], v[4];
  int n = elements(static_cast<const typename From::Cache&>(f.c), k, v);
  if (ordered) for (int i = 0; i < n; i++) { k[i] = f.m.e[i].key; v[i] = f.m.e[i].val; }
  Into s = Into::any();
  s.prestate(1);
  s.tick();
  // The source's recency is not the destination's business, its entries are.
  bool assign = !ordered && sym_bool("assign");
  if (assign) {
    s.m.n = 0;
    if (s.m.cap < (size_t)n) s.m.cap = n;
  }
  size_t fresh = 0;
  for (int i = 0; i < n; i++) fresh += s.m.insert(k[i], v[i]);
  if (ordered) CHECK(s.c.insert(f.c.ordered_begin(), f.c.ordered_end()) == fresh, "the number of newly inserted elements is wrong");
  else if (assign) s.c = f.c;
  else CHECK(s.c.insert(f.c) == fresh, "the number of newly inserted elements is wrong");
  Model r = read(f.c);
  CHECK(r.n == f.m.n, "the source cache was modified");
  for (int i = 0; i < r.n; i++) CHECK(r.find(f.m.e[i].key) >= 0 && r.e[r.find(f.m.e[i].key)].val == f.m.e[i].val, "the source cache was modified");
  s.verify();
  reach("end");
}
// an unordered or ordered iterator range over, or assignment of, another cache with up to 2 entries
ENTRY(u_from_timed) { from_cache<T<>, U<>>(sym_bool("ordered")); }
ENTRY(timed_from_u) { from_cache<U<>, T<>>(sym_bool("ordered")); }
ENTRY(u_from_u) { from_cache<U<HBit>, U<>>(sym_bool("ordered")); }
// construction from a cache of another type
ENTRY(construct_from_cache) {
  T<> f(3, 100000);
  f.prestate(2);
  int k[4], v[4];
  int n = elements(static_cast<const T<>::Cache&>(f.c), k, v);
  bool given = sym_bool("capacity_given");
  size_t cap = given ? sym_size("capacity") : 0;
  using C = U<>::Cache;
  const auto& cf = f.c;
  C* p;
  if (sym_bool("const")) p = given ? new C(cap, cf) : new C(cf);
  else p = given ? new C(cap, f.c) : new C(f.c);
  Model m;
  m.cap = given ? cap : p->capacity();
  CHECK(p->capacity() == m.cap, "the given capacity is not used");
  if (!given) CHECK(p->capacity() >= U<>::Cache().capacity(), "the inferred capacity is too small");
  for (int i = 0; i < n; i++) m.insert(k[i], v[i]);
  Model r = read(f.c);
  CHECK(same(r, f.m), "the source cache was modified");
  U<> s(p, m);
  s.verify();
  reach("end");
}
// Iterators that can be traversed only once.
struct Source { const Elements* e; int pos = 0; };
struct Once {
  using iterator_category = std::input_iterator_tag;
  using value_type = std::pair<int, int>;
  using difference_type = std::ptrdiff_t;
  using pointer = const value_type*;
  using reference = const value_type&;
  Source* s = nullptr;
  value_type now;
  Once() = default;
  explicit Once(Source* s_) : s(s_) { ++*this; }
  Once& operator++() {
    if (s->pos == s->e->n) s = nullptr;
    else { now = value_type(s->e->k[s->pos], s->e->v[s->pos]); s->pos++; }
    return *this;
  }
  Once operator++(int) { Once o(*this); ++*this; return o; }
  reference operator*() const { return now; }
  pointer operator->() const { return &now; }
  friend bool operator==(const Once& a, const Once& b) { return a.s == b.s; }
  friend bool operator!=(const Once& a, const Once& b) { return a.s != b.s; }
};
template <class C>
static void single_pass() {
  using M = Make<C>;
  using S = Sys<C, M::timed>;
  const int64_t ttl = M::timed ? any_ttl() : 0;
  const int len = choice(TIER(4, 5), "length");
  Elements e(len);
  Source src{&e};
  const int form = choice(3, "form");
  const size_t cap = form == 1 ? 0 : sym_size("capacity");
  C* p = form == 0 ? M::make(ttl, cap, Once(&src), Once()) : form == 1 ? M::make(ttl, Once(&src), Once()) : M::make(ttl, cap);
  Model m;
  m.timed = M::timed;
  m.ttl = ttl;
  m.cap = form == 1 ? p->capacity() : cap;
  CHECK(p->capacity() == m.cap, "the given capacity is not used");
  if (form == 1) CHECK(p->capacity() >= U<>::Cache().capacity(), "the inferred capacity is too small");
  size_t fresh = 0;
  for (int i = 0; i < len; i++) fresh += m.insert(e.k[i], e.v[i]);
  if (form == 2) CHECK(p->insert(Once(&src), Once()) == fresh, "the number of newly inserted elements is wrong");
  S s(p, m);
  Sys18<C>::finish(s);
}
// construction and insertion from input iterators, up to 3 (4) elements
ENTRY(single_pass_u) { single_pass<UC<int>>(); }
ENTRY(single_pass_timed) { single_pass<TC<int>>(); }
// more elements than the default capacity
ENTRY(many) {
  const int n = 129;
  std::vector<std::pair<int, int>> src;
  for (int i = 0; i < n; i++) src.emplace_back(i, i);
  int k = sym_int("key");
  src[5].first = k;
  using C = LRU::Cache<int, int, HLow>;
  size_t cap = 0;
  std::unique_ptr<C> p;
  switch (choice(4, "form")) {
    case 0: p.reset(new C(src.begin(), src.end())); break;
    case 1: p.reset(new C(src)); break;
    case 2: p.reset(new C(std::move(src))); break;
    case 3: p.reset(new C(2)); *p = src; break;
  }
  cap = p->capacity();
  obs(cap);
  CHECK(cap >= (size_t)n, "the inferred capacity is less than the number of elements");
  bool repeated = (uint32_t)k < (uint32_t)n && k != 5;
  CHECK(p->size() == (size_t)(repeated ? n - 1 : n), "elements are missing");
  reach("end");
}
