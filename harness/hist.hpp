// The history driver: performs operations on a real cache and on the model and
// compares every result.
#pragma once
#include "common.hpp"

enum Op : uint32_t {
  O_INSERT = 1u << 0,
  O_EMPLACE = 1u << 1,
  O_CONTAINS = 1u << 2,
  O_FIND = 1u << 3,
  O_FINDC = 1u << 4,
  O_LOOKUP = 1u << 5,
  O_LOOKUPC = 1u << 6,
  O_INDEX = 1u << 7,
  O_INDEXC = 1u << 8,
  O_ERASE = 1u << 9,
  O_ERASE_U = 1u << 10,
  O_ERASE_O = 1u << 11,
  O_CAPACITY = 1u << 12,
  O_SHRINK = 1u << 13,
  O_CLEAR = 1u << 14,
  O_ASSIGN = 1u << 15,        // assignment through a reference or iterator
  O_RANGE = 1u << 16,         // insertion of an lvalue range
  O_RRANGE = 1u << 17,        // insertion of an rvalue range
  O_LIST = 1u << 18,          // insertion of an initializer list
  O_ASSIGN_RANGE = 1u << 19,  // assignment of a range or list
  O_QUERY = 1u << 20,         // operations that change nothing
  O_CLEAR_EXPIRED = 1u << 21,
  O_ERASE_END = 1u << 22,
  O_PIECEWISE = 1u << 23,
  O_ITERS = 1u << 24,         // insertion of an iterator pair
  LOOKUPS = O_CONTAINS | O_FIND | O_FINDC | O_LOOKUP | O_LOOKUPC | O_INDEX | O_INDEXC,
  LOOKUPS3 = O_CONTAINS | O_FIND | O_LOOKUP,
  INSERTS = O_INSERT | O_EMPLACE,
  ERASES = O_ERASE | O_ERASE_U | O_ERASE_O,
};

static inline int32_t nth_bit(uint32_t mask, uint32_t i) {
  for (int b = 0; b < 32; b++)
    if (mask >> b & 1) {
      if (i == 0) return b;
      i--;
    }
  return -1;
}

// Elapsed times and times to live range over this many bits (nanoseconds); all
// orderings of a few ages and times to live occur within a few bits.
#ifndef TIMEBITS
#define TIMEBITS 12
#endif
static inline int64_t any_elapsed() { return (int64_t)__sym_var(TIMEBITS, "elapsed"); }
static inline int64_t any_ttl() {
#if TIMEBITS > 32
  return sym_i64("ttl");
#else
  return (int64_t)__sym_var(TIMEBITS, "ttl") - 4;
#endif
}

template <class C, bool Timed = false>
struct Sys {
  using Cache = C;
  std::unique_ptr<C> own;
  C& c;
  Model m;
  static constexpr bool timed = Timed;
  // every lookup made through this driver
  struct L { int key; bool hit; int val; };
  static constexpr int MAXLOG = 12;
  L log[MAXLOG];
  int nlog = 0;

  static C* make(size_t cap, int64_t ttl) {
    if constexpr (Timed) return new C(NS(ttl), cap);
    else return new C(cap);
  }
  Sys(size_t cap, int64_t ttl = 0) : own(make(cap, ttl)), c(*own) {
    m.cap = cap;
    m.timed = Timed;
    m.ttl = ttl;
  }
  // A system whose cache and model were built by other means.
  Sys(C* p, const Model& m_) : own(p), c(*p), m(m_) {}
  Sys(const Sys&) = delete;

  // The model of a lookup: the index of the entry that is served, or -1.
  int expect_lookup(int k) {
    int i = m.lookup(k);
    if (nlog < MAXLOG) log[nlog++] = L{k, i >= 0, i >= 0 ? m.e[i].val : 0};
    return i;
  }

  static Sys any() {
    size_t cap = sym_size("capacity");
    int64_t ttl = Timed ? any_ttl() : 0;
    return Sys(cap, ttl);
  }

  void tick() {
    if (!Timed) return;
    __sym_now_ns += any_elapsed();
  }

  // Up to n insertions of distinct keys.
  void prestate(int n, bool exact = false) {
    int k = exact ? n : (int)choice(n + 1, "entries");
    for (int i = 0; i < k; i++) {
      tick();
      int key = sym_int("key"), val = sym_int("value");
      for (int j = 0; j < m.n; j++) ASSUME(!m.eq(m.e[j].key, key));
      m.insert(key, val);
      c.insert(key, val);
    }
  }

  // ------------------------------------------------------------ operations
  template <class R>
  void insertion(R&& r, bool fresh, int k, int v) {
    chk_result<G_INSERT>(r.was_inserted() == fresh, "was_inserted is wrong");
    chk_result<G_INSERT>(static_cast<bool>(r) == fresh, "the insertion result converts to the wrong bool");
    auto it = r.iterator();
    if (m.cap == 0) {
      chk_result<G_INSERT>(it == c.end(), "insertion into a cache of capacity 0 does not return end");
    } else {
      chk<G_INSERT>(it != c.end(), "insertion returns the end iterator");
      chk_result<G_INSERT>(it->first == m.e[m.n - 1].key, "insertion returns an iterator to another key");
      chk_result<G_INSERT>(it->second == v, "insertion returns an iterator to another value");
    }
  }
  void insert(int k, int v) {
    bool f = m.insert(k, v);
    insertion(c.insert(k, v), f, k, v);
  }
  void emplace(int k, int v) {
    bool f = m.insert(k, v);
    insertion(c.emplace(k, v), f, k, v);
  }
  void piecewise(int k, int v) {
    bool f = m.insert(k, v);
    insertion(c.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)), f, k, v);
  }
  template <class It>
  void found(It it, bool end, int i) {
    chk<G_LOOKUP>(end == (i < 0), i < 0 ? "a lookup found a key that is not there" : "a lookup missed a key that is there");
    if (i >= 0) {
      chk_result<G_LOOKUP>(it->first == m.e[i].key, "a lookup returned another key");
      chk_result<G_LOOKUP>(it->second == m.e[i].val, "a lookup returned another value");
    }
  }
  template <class F>
  void looked_up(F&& f, int k) {
    bool stale = false;
    if (Timed) {
      int j = m.find(k);
      stale = j >= 0 && m.expired(j);
    }
    int i = expect_lookup(k);
    int v = 0;
    int outcome = 0;
    try {
      v = f();
    } catch (const LRU::Error::KeyNotFound&) {
      outcome = 1;
    } catch (const LRU::Error::KeyExpired&) {
      outcome = 2;
    }
    obs(outcome);
    chk_result<G_LOOKUP>((outcome == 0) == (i >= 0), i < 0 ? "a lookup returned a value for a key that is not there" : "a lookup threw for a key that is there");
    chk_result<G_LOOKUP>(outcome != 2 || stale, "KeyExpired for a key that has not expired");
    if (i >= 0) chk_result<G_LOOKUP>(v == m.e[i].val, "a lookup returned another value");
  }
  void lookup(uint32_t kind, int k) {
    const C& cc = c;
    switch (kind) {
      case O_CONTAINS: {
        int i = expect_lookup(k);
        bool b = cc.contains(k);
        obs(b);
        chk_result<G_LOOKUP>(b == (i >= 0), i < 0 ? "contains is true for a key that is not there" : "contains is false for a key that is there");
        break;
      }
      case O_FIND: {
        int i = expect_lookup(k);
        auto it = c.find(k);
        found(it, it == c.end(), i);
        break;
      }
      case O_FINDC: {
        int i = expect_lookup(k);
        auto it = cc.find(k);
        found(it, it == cc.end(), i);
        break;
      }
      case O_LOOKUP: looked_up([&] { return c.lookup(k); }, k); break;
      case O_LOOKUPC: looked_up([&] { return cc.lookup(k); }, k); break;
      case O_INDEX: looked_up([&] { return c[k]; }, k); break;
      case O_INDEXC: looked_up([&] { return cc[k]; }, k); break;
      default: __sym_fail("harness: not a lookup");
    }
  }
  void erase(int k) {
    bool b = m.erase(k);
    chk_result<G_ERASE>(c.erase(k) == b, b ? "erase returned false for a stored key" : "erase returned true for a key that is not stored");
  }
  // Erases the j-th entry in unordered or ordered iteration.
  void erase_unordered(uint32_t j) {
    bool con = sym_bool("const_iterator");
    auto it = c.unordered_begin();
    for (uint32_t i = 0; i < j; i++) ++it;
    int k = it->first;
    chk<G_SET>(m.erase(k), "unordered iteration reached a key that is not stored");
    if (con) {
      typename C::UnorderedConstIterator ci(it);
      c.erase(ci);
    } else {
      c.erase(it);
    }
  }
  void erase_ordered(uint32_t j) {
    bool con = sym_bool("const_iterator");
    auto it = c.ordered_begin();
    for (uint32_t i = 0; i < j; i++) ++it;
    int k = it->first;
    chk<G_SET>(m.erase(k), "ordered iteration reached a key that is not stored");
    if (con) {
      typename C::OrderedConstIterator ci(it);
      c.erase(ci);
    } else {
      c.erase(it);
    }
  }
  void erase_end() {
    bool thrown = false;
    try {
      switch (choice(4, "which_end")) {
        case 0: c.erase(c.unordered_end()); break;
        case 1: c.erase(c.unordered_cend()); break;
        case 2: c.erase(c.ordered_end()); break;
        case 3: c.erase(c.ordered_cend()); break;
      }
    } catch (const LRU::Error::InvalidIterator&) {
      thrown = true;
    }
    chk<G_ERASE>(thrown, "erasing an end iterator does not throw");
  }
  void capacity(size_t q) {
    m.limit(q);
    m.cap = q;
    c.capacity(q);
  }
  void shrink(size_t q) {
    m.limit(q);
    c.shrink(q);
  }
  void clear() {
    m.n = 0;
    c.clear();
  }
  void assign(uint32_t how, int k, int v) {
    int i = expect_lookup(k);
    if (i < 0) ASSUME(false);
    m.e[i].val = v;
    switch (how) {
      case 0: c.lookup(k) = v; break;
      case 1: c[k] = v; break;
      case 2: c.find(k)->second = v; break;
      case 3: c.find(k).value() = v; break;
      case 4: (*c.find(k)).value() = v; break;
    }
  }
  void insert_many(uint32_t op, int n) {
    std::vector<std::pair<int, int>> src;
    src.reserve(n);
    size_t fresh = 0;
    for (int i = 0; i < n; i++) {
      int k = sym_int("key"), v = sym_int("value");
      src.emplace_back(k, v);
      fresh += m.insert(k, v);
    }
    size_t r = 0;
    if (op == O_RANGE) r = c.insert(src);
    else if (op == O_RRANGE) r = c.insert(std::move(src));
    else if (op == O_ITERS) r = c.insert(src.begin(), src.end());
    else if (n == 1) r = c.insert({{src[0].first, src[0].second}});
    else if (n == 2) r = c.insert({{src[0].first, src[0].second}, {src[1].first, src[1].second}});
    else r = c.insert({{src[0].first, src[0].second}, {src[1].first, src[1].second}, {src[2].first, src[2].second}});
    obs(r);
    chk_result<G_INSERT>(r == fresh, "insertion of a range returned the wrong number of new elements");
  }
  void assign_range(int n) {
    std::vector<std::pair<int, int>> src;
    src.reserve(n);
    m.n = 0;
    if (m.cap < (size_t)n) m.cap = n;
    for (int i = 0; i < n; i++) {
      int k = sym_int("key"), v = sym_int("value");
      src.emplace_back(k, v);
      m.insert(k, v);
    }
    switch (choice(3, "form")) {
      case 0: c = src; break;
      case 1: c = std::move(src); break;
      case 2:
        if (n == 1) c = {{src[0].first, src[0].second}};
        else if (n == 2) c = {{src[0].first, src[0].second}, {src[1].first, src[1].second}};
        else ASSUME(false);
        break;
    }
  }
  // Operations that may change nothing.
  void query() {
    const C& cc = c;
    switch (choice(Timed ? 8 : 6, "query")) {
      case 0: {
        int s = 0;
        for (auto& e : c) s += e.first;
        for (const auto& e : cc) s += e.first;
        obs((uint32_t)s);
        break;
      }
      case 1: {
        int s = 0;
        for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) s += (*it).second;
        for (auto it = c.ordered_end(); it != c.ordered_begin();) { --it; s += it->second; }
        obs((uint32_t)s);
        break;
      }
      case 2: obs(cc.size() + cc.space_left() + cc.is_empty() + cc.is_full() + cc.capacity() + cc.is_monitoring()); break;
      case 3: obs(c.unordered_begin() == c.ordered_begin()); obs(c.ordered_end() == c.unordered_end()); break;
      case 4: obs(c == cc); obs(cc != c); break;
      case 5:
        obs(c.is_valid(c.ordered_begin()));
        obs(c.is_valid(c.unordered_begin()));
        obs(cc.is_valid(cc.ordered_end()));
        break;
      case 6:
        if constexpr (Timed) {
          obs(cc.all_expired());
          obs(cc.has_expired(sym_int("key")));
        }
        break;
      case 7:
        if constexpr (Timed) {
          for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) obs(cc.has_expired(it));
          for (auto it = cc.unordered_begin(); it != cc.unordered_end(); ++it) obs(cc.has_expired(it));
        }
        break;
    }
  }

  template <uint32_t Ops>
  void step(int range_max = 2) {
    tick();
    uint32_t op = 1u << nth_bit(Ops, choice(__builtin_popcount(Ops), "operation"));
    perform(op & Ops, range_max);
  }
  void perform(uint32_t op, int range_max = 2) {
    if (op & LOOKUPS) {
      lookup(op, sym_int("key"));
      return;
    }
    switch (op) {
      case O_INSERT: { int k = sym_int("key"); insert(k, sym_int("value")); break; }
      case O_EMPLACE: { int k = sym_int("key"); emplace(k, sym_int("value")); break; }
      case O_PIECEWISE: { int k = sym_int("key"); piecewise(k, sym_int("value")); break; }
      case O_ERASE: erase(sym_int("key")); break;
      case O_ERASE_U: if (m.n == 0) ASSUME(false); else erase_unordered(choice(m.n, "position")); break;
      case O_ERASE_O: if (m.n == 0) ASSUME(false); else erase_ordered(choice(m.n, "position")); break;
      case O_ERASE_END: erase_end(); break;
      case O_CAPACITY: capacity(sym_size("capacity")); break;
      case O_SHRINK: shrink(sym_size("size")); break;
      case O_CLEAR: clear(); break;
      case O_ASSIGN: { uint32_t how = choice(5, "how"); int k = sym_int("key"); assign(how, k, sym_int("value")); break; }
      case O_RANGE:
      case O_RRANGE:
      case O_ITERS: insert_many(op, choice(range_max + 1, "length")); break;
      case O_LIST: insert_many(op, 1 + choice(range_max, "length")); break;
      case O_ASSIGN_RANGE: assign_range(choice(range_max + 1, "length")); break;
      case O_QUERY: query(); break;
      case O_CLEAR_EXPIRED:
        if constexpr (Timed) {
          int x = m.clear_expired();
          size_t r = c.clear_expired();
          obs(r);
          chk_result<G_TIME>(r == (size_t)x, "clear_expired returned the wrong number");
        }
        break;
      default: __sym_fail("harness: unknown operation");
    }
  }

  // ------------------------------------------------------------ comparison of the whole state
  void verify() {
    const C& cc = c;
    Together all;
    obs(cc.size());
    all.template chk<G_SIZE>(cc.capacity() == m.cap, "capacity is wrong");
    all.template chk<G_SIZE>(cc.size() <= cc.capacity(), "more entries than the capacity");
    all.template chk<G_SIZE>(cc.size() == (size_t)m.n, "size is wrong");
    all.template chk<G_SIZE>(cc.is_empty() == (m.n == 0), "is_empty is wrong");
    all.template chk<G_SIZE>(cc.is_full() == ((size_t)m.n == m.cap), "is_full is wrong");
    all.template chk<G_SIZE>(cc.space_left() == m.cap - (size_t)m.n, "space_left is wrong");
    Model r = read(cc);
    all.template chk<G_SIZE>(r.n == m.n, "ordered iteration does not reach as many entries as size says");
    int u = 0;
    for (auto it = cc.begin(); it != cc.end(); ++it) {
      u++;
      if (u > m.n) break;
    }
    all.template chk<G_SIZE>(u == m.n, "unordered iteration does not reach as many entries as size says");
    observe(r);
    bool seq = r.n == m.n;
    for (int i = 0; i < m.n && seq; i++) seq = r.e[i].key == m.e[i].key;
    if (!seq) {
      bool set = r.n == m.n;
      for (int i = 0; i < m.n; i++) {
        const bool there = r.find(m.e[i].key) >= 0;
        set = set && there;
        all.template chk<G_SET>(there, "an entry that should be stored is missing");
      }
      for (int i = 0; i < r.n; i++) {
        const bool there = m.find(r.e[i].key) >= 0;
        set = set && there;
        all.template chk<G_SET>(there, "an entry that should be gone is stored");
      }
      if (set) all.template chk<G_ORDER>(false, "the recency order is wrong");
    }
    for (int i = 0; i < m.n; i++) {
      int j = seq ? i : r.find(m.e[i].key);
      if (j >= 0) all.template chk<G_VALUE>(r.e[j].val == m.e[i].val, "an entry has the wrong value");
    }
    if constexpr (!Timed) {
      if (m.n > 0 && r.n > 0) {
        all.template chk<G_ORDER>(cc.front() == m.e[m.n - 1].key, "front is not the most recently used key");
        all.template chk<G_ORDER>(cc.back() == m.e[0].key, "back is not the least recently used key");
      }
    }
  }
  // Every key of the model is found with its value, by unordered iteration.
  void verify_unordered() {
    const C& cc = c;
    for (auto it = cc.unordered_cbegin(); it != cc.unordered_cend(); ++it) {
      int i = m.find(it->first);
      chk<G_ITER>(i >= 0, "unordered iteration visits a key that is not stored");
      chk<G_ITER>(it->second == m.e[i].val, "unordered iteration visits a wrong value");
    }
  }
};

template <class H = HConst>
using U = Sys<LRU::Cache<int, int, H>, false>;
template <class H = HConst>
using T = Sys<LRU::TimedCache<int, int, NS, H>, true>;
