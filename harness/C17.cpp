// Every memory access, call and exception on every path is checked by the engine
// itself; paths on which the results deviate from the model are another
// property's business and end there.
#define OWN 0u
#define MODEL_MAX 200
#define CHECK_LEAKS
#include "long.hpp"

// A value that owns memory.
struct Box {
  int* p;
  Box(int v) : p(new int(v)) {}
  Box(const Box& o) : p(new int(*o.p)) {}
  Box(Box&& o) noexcept : p(o.p) { o.p = nullptr; }
  Box& operator=(const Box& o) {
    if (this != &o) {
      int* q = new int(*o.p);
      delete p;
      p = q;
    }
    return *this;
  }
  Box& operator=(Box&& o) noexcept {
    if (this != &o) {
      delete p;
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~Box() { delete p; }
  operator int() const { return *p; }
  friend bool operator==(const Box& a, const Box& b) { return *a.p == *b.p; }
  friend bool operator!=(const Box& a, const Box& b) { return *a.p != *b.p; }
};
struct HBox { size_t operator()(const Box&) const { return 0; } };
namespace std {
template <> struct hash<Box> { size_t operator()(const Box&) const { return 0; } };
}
template <class S>
static void die(S& s) {
  s.own.reset();
  __sym_leaks();
  reach("end");
}

template <class S, uint32_t Ops>
static void history(int n, int k) {
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  s.verify();
  die(s);
}
constexpr uint32_t EVERY = INSERTS | O_PIECEWISE | LOOKUPS3 | O_LOOKUPC | ERASES | O_ERASE_END | O_CAPACITY | O_SHRINK | O_CLEAR | O_ASSIGN | O_RANGE | O_RRANGE | O_LIST | O_ASSIGN_RANGE | O_QUERY;
constexpr uint32_t SOME = O_INSERT | O_CONTAINS | O_LOOKUP | O_ERASE | O_CAPACITY | O_SHRINK | O_CLEAR | O_ERASE_O | O_ERASE_U;
// any capacity, up to 2 (3) entries, 2 operations of any kind, destruction, leak check
ENTRY(every_u) { history<U<>, EVERY>(TIER(2, 3), 2); }
// 3 operations
ENTRY(some_u) { history<U<>, SOME>(2, 3); }
// two hash values
ENTRY(some_bit) { history<U<HBit>, SOME>(2, 2); }
// timed caches
ENTRY(every_timed) { history<T<>, EVERY | O_CLEAR_EXPIRED>(TIER(1, 2), 2); }
// timed, 3 operations
ENTRY(some_timed) { history<T<>, O_INSERT | O_CONTAINS | O_LOOKUP | O_ERASE | O_CLEAR_EXPIRED | O_ERASE_O>(1, 3); }

// ---------------------------------------------------------------- arguments that live in the cache
template <class C, class Expect>
static void self_reference(C& c, Expect&& size) {
  auto first = c.unordered_begin();
  auto last = c.ordered_end();
  --last;
  int k = sym_int("key");
  switch (choice(14, "operation")) {
    case 0: c.insert(first->first, first->second); break;
    case 1: c.insert(last->first, first->second); break;
    case 2: c.emplace(first->first, last->second); break;
    case 3: c.insert(k, first->second); break;          // may evict the entry the value lives in
    case 4: c.insert(k, c.ordered_begin()->second); break;
    case 5: c.emplace(k, c.ordered_begin()->second); break;
    case 6: c.erase(first->first); break;
    case 7: c.erase(c.ordered_begin()->first); break;
    case 8: c.erase(last->first); break;
    case 9: obs((uint32_t)(int)c.lookup(first->first)); break;
    case 10: obs(c.contains(c.ordered_begin()->first)); break;
    case 11: obs(c.find(last->first) == c.end()); break;
    case 12: { auto it = c.find(first->first); c.insert(it->first, it->second); break; }
    case 13: { int v = c.lookup(last->first); c.emplace(last->first, v); break; }
  }
  obs(c.size());
}
template <class K, class V, class H, bool Timed>
static void own_arguments(int n) {
  using C = typename std::conditional<Timed, LRU::TimedCache<K, V, NS, H>, LRU::Cache<K, V, H>>::type;
  std::unique_ptr<C> own;
  size_t cap = 1 + (size_t)choice(3, "capacity");
  if constexpr (Timed) own.reset(new C(NS(1000), cap));
  else own.reset(new C(cap));
  C& c = *own;
  int m = 1 + choice(n, "entries");
  for (int i = 0; i < m; i++) {
    int k = sym_int("key");
    c.insert(k, i);
  }
  if (sym_bool("use")) { int k = sym_int("key"); obs(c.contains(k)); }
  for (int i = 0; i < 2; i++) {
    if (c.is_empty()) break;
    self_reference(c, 0);
  }
  for (auto& e : c) obs((uint32_t)(int)e.second);
  for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) obs((uint32_t)(int)it->first);
  own.reset();
  __sym_leaks();
  reach("end");
}
// up to 2 (3) entries, capacities 1 to 3, two operations whose arguments refer to entries of the cache
ENTRY(own_arguments_u) { own_arguments<int, int, HConst, false>(TIER(2, 3)); }
ENTRY(own_arguments_box) { own_arguments<Box, Box, HBox, false>(2); }
ENTRY(own_arguments_timed) { own_arguments<int, int, HConst, true>(2); }

// ---------------------------------------------------------------- keys and values that own memory
template <class C>
static C* make_boxes(size_t cap) {
  if constexpr (std::is_same<typename C::Tag, LRU::Tag::TimedCache>::value) return new C(NS(1000), cap);
  else return new C(cap);
}
template <class C>
static void box_step(C& c) {
  switch (choice(13, "operation")) {
    case 0: { int k = sym_int("key"); c.insert(k, 3); break; }
    case 1: { int k = sym_int("key"); c.emplace(k, 4); break; }
    case 2: { Box k(sym_int("key")), v(5); c.emplace(std::move(k), std::move(v)); break; }
    case 3: { int k = sym_int("key"); c.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(6)); break; }
    case 4: { int k = sym_int("key"); obs(c.contains(k)); break; }
    case 5: { int k = sym_int("key"); try { Box v = c.lookup(k); obs((uint32_t)(int)v); } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break; }
    case 6: { int k = sym_int("key"); obs(c.erase(k)); break; }
    case 7: c.capacity(choice(3, "capacity")); break;
    case 8: c.shrink(choice(2, "size")); break;
    case 9: {
      std::vector<std::pair<Box, Box>> v;
      v.emplace_back(sym_int("key"), 1);
      v.emplace_back(sym_int("key"), 2);
      switch (choice(4, "form")) {
        case 0: c.insert(v); break;
        case 1: c.insert(std::move(v)); break;
        case 2: c = v; break;
        case 3: c = std::move(v); break;
      }
      break;
    }
    case 10: { if (c.is_empty()) break; auto it = c.ordered_begin(); it->second = Box(9); c.erase(it); break; }
    case 11: { for (auto& e : c) e.second = Box(8); break; }
    case 12: { int k = sym_int("key"); auto it = c.find(k); if (it != c.end()) { it.value(); c.erase(it); } break; }
  }
}
template <class C>
static void boxes(int steps) {
  std::unique_ptr<C> own(make_boxes<C>(choice(4, "capacity")));
  int n = choice(3, "entries");
  for (int i = 0; i < n; i++) { int k = sym_int("key"); own->insert(k, i); }
  for (int i = 0; i < steps; i++) box_step(*own);
  obs(own->size());
  own.reset();
  __sym_leaks();
  reach("end");
}
// keys and values that own memory; capacities 0 to 3, up to 2 entries, 2 (3) operations, destruction, leak check
ENTRY(boxes_u) { boxes<LRU::Cache<Box, Box, HBox>>(TIER(2, 3)); }
ENTRY(boxes_timed) { boxes<LRU::TimedCache<Box, Box, NS, HBox>>(2); }

// several caches: copies, moves, swaps, assignments and deaths in any order
template <class C>
static void many(int steps) {
  std::unique_ptr<C> c[3];
  for (int i = 0; i < 2; i++) {
    c[i].reset(make_boxes<C>(1 + i));
    int k = sym_int("key");
    c[i]->insert(k, i);
    if (sym_bool("use")) obs(c[i]->contains(k));
  }
  for (int i = 0; i < steps; i++) {
    int a = choice(2, "first");
    if (!c[a]) continue;
    int b = 1 - a;
    switch (choice(8, "operation")) {
      case 0: c[2].reset(new C(*c[a])); break;
      case 1: c[2].reset(new C(std::move(*c[a]))); break;
      case 2: if (c[b]) *c[b] = *c[a]; break;
      case 3: if (c[b]) *c[b] = std::move(*c[a]); break;
      case 4: if (c[b]) c[a]->swap(*c[b]); break;
      case 5: c[a].reset(); break;
      case 6: { int k = sym_int("key"); c[a]->insert(k, 7); break; }
      case 7: { int k = sym_int("key"); obs(c[a]->contains(k)); obs(c[a]->erase(k)); break; }
    }
  }
  for (auto& x : c)
    if (x) {
      int k = sym_int("key");
      obs(x->contains(k));
      x->insert(k, 3);
      for (auto& e : *x) obs((uint32_t)(int)e.second);
      for (auto it = x->ordered_begin(); it != x->ordered_end(); ++it) obs((uint32_t)(int)it->second);
    }
  c[choice(3, "dies_first")].reset();
  for (auto& x : c) x.reset();
  __sym_leaks();
  reach("end");
}
// three caches with up to 1 entry, 2 (3) of copy, move, assign, swap, destroy, insert, lookup and erase, then use and destruction
ENTRY(many_u) { many<LRU::Cache<Box, Box, HBox>>(TIER(2, 3)); }
ENTRY(many_timed) { many<LRU::TimedCache<Box, Box, NS, HBox>>(2); }

// iterators: default constructed, copied, moved, assigned, converted, outliving their entry
template <class S>
static void iterators() {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(2);
  auto& c = s.c;
  {
    typename C::UnorderedIterator u;
    typename C::UnorderedConstIterator uc;
    typename C::OrderedIterator o;
    typename C::OrderedConstIterator oc;
    u = c.unordered_begin();
    uc = static_cast<const C&>(c).unordered_begin();
    o = c.ordered_begin();
    oc = c.ordered_cbegin();
    if (s.m.n > 0) {
      obs((uint32_t)u->second);
      obs((uint32_t)uc->second);
      obs((uint32_t)o->second);
      obs((uint32_t)oc->second);
      auto u2 = u;
      auto o2 = o;
      auto o3 = std::move(o2);
      obs((uint32_t)u2->second);
      obs((uint32_t)o3->second);
      using std::swap;
      swap(u, u2);
      swap(o, o3);
      obs((uint32_t)u->second);
      obs((uint32_t)o->second);
      {
        auto source = o;
        if (sym_bool("dereferenced")) obs((uint32_t)source->second);
        typename C::OrderedConstIterator made(source);
        typename C::OrderedConstIterator k(std::move(source));
        obs((uint32_t)k->second);
        obs((uint32_t)made->second);
        k = std::move(made);
        obs((uint32_t)k->second);
        auto us = u;
        typename C::UnorderedConstIterator uk(std::move(us));
        obs((uint32_t)uk->second);
        typename C::OrderedConstIterator ck(std::move(uk));
        obs((uint32_t)ck->second);
      }
      u2 = c.unordered_end();
      o3 = c.ordered_end();
      --o3;
      obs((uint32_t)o3->first);
      o2 = o3;
      ++o2;
      obs(o2 == c.ordered_end());
    }
    s.template step<O_ERASE | O_CLEAR | O_INSERT | O_CAPACITY>();
    // the iterators are destroyed, maybe after their entries
  }
  s.verify();
  die(s);
}
ENTRY(iterators_u) { iterators<U<>>(); }
ENTRY(iterators_timed) { iterators<T<>>(); }

// an iterator whose assignment fails stays usable
ENTRY(failed_conversion) {
  U<> s(3);
  s.prestate(2);
  auto& c = s.c;
  if (s.m.n == 0) ASSUME(false);
  auto o = c.ordered_begin();
  if (sym_bool("dereferenced")) obs((uint32_t)o->second);
  try { o = U<>::Cache::OrderedIterator(c.unordered_end()); } catch (const LRU::Error::InvalidIteratorConversion&) {}
  obs((uint32_t)o->second);
  die(s);
}

// statistics and callbacks outlive or predecease the cache
template <class S>
static void monitors() {
  S s = S::any();
  s.prestate(1);
  auto st = std::make_shared<LRU::Statistics<int>>();
  st->monitor(sym_int("monitored"));
  static int* counter;
  counter = new int(0);
  auto shared = std::make_shared<int>(3);
  if (sym_bool("shared")) s.c.monitor(st);
  else { s.c.monitor(); }
  s.c.hit_callback([shared](const int&, const int&) { ++*counter; });
  s.c.miss_callback([shared](const int& k) { *counter += *shared; });
  s.c.access_callback([](const int&, bool) { ++*counter; });
  s.template step<LOOKUPS3>();
  switch (choice(4, "change")) {
    case 0: s.c.stop_monitoring(); break;
    case 1: s.c.clear_all_callbacks(); break;
    case 2: { typename S::Cache* p = new typename S::Cache(s.c); s.own.reset(p); obs(p->contains(sym_int("key"))); break; }
    case 3: s.c.monitor(st); break;
  }
  if (choice(2, "change") == 0) { int k = sym_int("key"); obs(s.own->contains(k)); }
  s.own.reset();
  obs(st->total_accesses());
  st.reset();
  shared.reset();
  delete counter;
  __sym_leaks();
  reach("end");
}
ENTRY(monitors_u) { monitors<U<>>(); }
ENTRY(monitors_timed) { monitors<T<>>(); }
// statistics objects on their own
ENTRY(statistics) {
  {
    LRU::Statistics<int> a;
    LRU::Statistics<int> b(1, 2);
    std::vector<int> v{3, 4, 5};
    LRU::Statistics<int> c(v);
    LRU::Statistics<int> d(v.begin(), v.end());
    int k = sym_int("key");
    for (auto* p : {&a, &b, &c, &d}) {
      switch (choice(6, "operation")) {
        case 0: p->monitor(k); break;
        case 1: try { p->unmonitor(k); } catch (LRU::Error::UnmonitoredKey&) {} break;
        case 2: p->reset_all(); break;
        case 3: p->unmonitor_all(); break;
        case 4: try { obs(p->stats_for(k).accesses()); } catch (LRU::Error::UnmonitoredKey&) {} break;
        case 5: try { p->reset_key(k); } catch (LRU::Error::UnmonitoredKey&) {} break;
      }
      obs(p->number_of_monitored_keys());
    }
    LRU::Statistics<int> e(b);
    a = std::move(e);
    obs(a.is_monitoring(k));
  }
  __sym_leaks();
  reach("end");
}
// wrapped functions: copies and deaths
static int plus_one(int x) { return x + 1; }
static Box boxed(int x) { return Box(x); }
ENTRY(wrapped) {
  {
    auto w0 = LRU::wrap(&plus_one, 2);
    auto w = std::make_unique<decltype(w0)>(w0);
    auto v = *w;
    int a = 5, b = choice(3, "argument");
    obs((*w)(a) + v(b));
    w.reset();
    obs(v(a) + v(b + 1));
    auto t = LRU::timed_wrap(&boxed, std::chrono::milliseconds(2), 1);
    obs((uint32_t)(int)t(a));
    __sym_now_ns += 3000000 * (int64_t)choice(2, "elapsed");
    obs((uint32_t)(int)t(a));
    obs((uint32_t)(int)t(b));
  }
  __sym_leaks();
  reach("end");
}
// 9 (20) entries, arbitrary erasures by key and iterator, rehashing, capacity changes
ENTRY(large) {
  const int n = TIER(9, 20);
  auto* p = new LRU::Cache<int, Box, HLow>(n);
  for (int i = 0; i < n; i++) p->insert(i * 3, i);
  int k = sym_int("key");
  obs(p->erase(k));
  auto it = p->find(sym_int("key"));
  if (it != p->end()) p->erase(it);
  p->capacity(choice(4, "capacity"));
  { int l = sym_int("key"); p->insert(l, 4); }
  p->capacity(40);
  for (int i = 0; i < 5; i++) p->emplace(100 + i, i);
  for (auto& e : *p) obs((uint32_t)(int)e.second);
  delete p;
  __sym_leaks();
  reach("end");
}

// ---------------------------------------------------------------- long histories
// any capacity, up to 2 entries (timed: 1), then 40 (timed: 16) times the same two operations (insert, emplace, contains, find, lookup, erase) with the same two arbitrary keys
ENTRY(repeated_u) { pump<U<>>(2, 40); }
ENTRY(repeated_timed) { pump<T<>>(1, 16); }
// after 500 (1500) fixed operations in a cache of capacity 20 or 150, one arbitrary lookup, insertion, erasure or shrink
ENTRY(after_many_u) { long_history<U<HLow>>(TIER(500, 1500), 20, 150, LAST); }
ENTRY(after_many_timed) { long_history<T<HLow>>(TIER(500, 1500), 20, 150, LAST | O_CLEAR_EXPIRED); }
// 1100 (20000) times one of 13 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure
ENTRY(bursts_u) { bursts<U<HLow>>(BURST, LAST3); }
ENTRY(bursts_timed) { bursts<T<HLow>>(BURST, LAST3); }
// a cache filled with 1100 (5000) entries, a lookup or erasure of any key around one of 6 places, ten insertions of an arbitrary value
ENTRY(huge_u) { huge<U<HAll>>(); }
ENTRY(huge_timed) { huge<T<HAll>>(); }
