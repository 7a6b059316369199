// C26: the cost of an operation does not grow with the number of entries.
#include "common.hpp"

// Spreads keys over all buckets.
struct HId { size_t operator()(const int& k) const noexcept { return (unsigned)k; } };
using CU = LRU::Cache<int, int, HId>;
using CT = LRU::TimedCache<int, int, NS, HId>;
template <class C> struct Make;
template <> struct Make<CU> { static CU* make(size_t cap) { return new CU(cap); } };
template <> struct Make<CT> { static CT* make(size_t cap) { return new CT(NS(1000), cap); } };

constexpr int SMALL = 8, LARGE = TIER(768, 3072);
// A cache with n entries (keys 0..n-1, 0 the oldest) and room for `room` more.  Twice
// as many entries were there before, so that the table need not grow any more.
template <class C>
static std::unique_ptr<C> filled(int n, int room) {
  std::unique_ptr<C> c(Make<C>::make(2 * n + room));
  for (int i = 0; i < 2 * n; i++) c->insert(-1 - i, i);
  c->clear();
  c->capacity(n + room);
  for (int i = 0; i < n; i++) c->insert(i, i);
  return c;
}
template <class F>
static uint64_t cost(F&& f) {
  const uint64_t a = __sym_cost();
  f();
  return __sym_cost() - a;
}
template <class F>
static bool throws(F&& f) {
  try { f(); } catch (const LRU::Error::KeyNotFound&) { return true; } catch (const LRU::Error::KeyExpired&) { return true; }
  return false;
}
static const char* const WHAT[] = {
  "contains", "find", "const find", "lookup", "const lookup", "operator[]", "insert of a stored key", "emplace of a stored key", "erase",
  "insert of a new key", "emplace of a new key", "lookup of a key that is not stored", "find of a key that is not stored",
  "erase of a key that is not stored", "erase by unordered iterator", "erase by ordered iterator", "advancing an iterator", "moving an ordered iterator back",
  "dereferencing an ordered iterator", "is_valid", "size, is_empty, is_full, space_left, capacity", "front", "back", "setting a larger capacity", "swap", "move construction",
  "is_monitoring", "comparing iterators"};
constexpr int OPS = sizeof(WHAT) / sizeof(*WHAT);
// Operation op at the entry with key k of a cache with keys 0..n-1; key n is not stored.
template <class C>
static uint64_t perform(C& c, int op, int k, int n) {
  const C& cc = c;
  volatile uint64_t sink = 0;
  switch (op) {
    case 0: return cost([&] { sink = cc.contains(k); });
    case 1: return cost([&] { sink = c.find(k) != c.end(); });
    case 2: return cost([&] { sink = cc.find(k) != cc.end(); });
    case 3: return cost([&] { throws([&] { sink = c.lookup(k); }); });
    case 4: return cost([&] { throws([&] { sink = cc.lookup(k); }); });
    case 5: return cost([&] { throws([&] { sink = c[k]; }); });
    case 6: return cost([&] { sink = c.insert(k, 7).was_inserted(); });
    case 7: return cost([&] { sink = c.emplace(k, 7).was_inserted(); });
    case 8: return cost([&] { sink = c.erase(k); });
    case 9: return cost([&] { sink = c.insert(n, 7).was_inserted(); });
    case 10: return cost([&] { sink = c.emplace(n, 7).was_inserted(); });
    case 11: return cost([&] { throws([&] { sink = c.lookup(n); }); });
    case 12: return cost([&] { sink = c.find(n) != c.end(); });
    case 13: return cost([&] { sink = c.erase(n); });
    case 14: {
      auto it = c.find(k);
      if (it == c.end()) return 0;
      return cost([&] { c.erase(it); });
    }
    case 15: {
      auto it = c.find(k);
      if (it == c.end()) return 0;
      typename C::OrderedIterator o(it);
      return cost([&] { c.erase(o); });
    }
    case 16: {
      auto it = c.ordered_begin();
      auto u = c.begin();
      for (int i = 0; i < k; i++) { ++it; ++u; }
      return cost([&] { ++it; ++u; sink = it == c.ordered_end(); });
    }
    case 17: {
      auto it = c.ordered_end();
      for (int i = n; i > k + 1; i--) --it;
      return cost([&] { --it; sink = it == c.ordered_begin(); });
    }
    case 18: {
      auto it = c.ordered_begin();
      for (int i = 0; i < k; i++) ++it;
      return cost([&] { sink = it->second; sink = it->second; });
    }
    case 19: {
      auto it = c.ordered_begin();
      auto u = c.begin();
      for (int i = 0; i < k; i++) { ++it; ++u; }
      return cost([&] { sink = c.is_valid(it); sink = c.is_valid(u); sink = c.is_valid(c.end()); });
    }
    case 20: return cost([&] { sink = cc.size() + cc.is_empty() + cc.is_full() + cc.space_left() + cc.capacity(); });
    case 21:
      if constexpr (std::is_same<C, CU>::value) return cost([&] { sink = cc.front(); });
      return 0;
    case 22:
      if constexpr (std::is_same<C, CU>::value) return cost([&] { sink = cc.back(); });
      return 0;
    case 23: return cost([&] { c.capacity(n + 100); });
    case 24: {
      std::unique_ptr<C> d(Make<C>::make(3));
      d->insert(1, 1);
      uint64_t r = cost([&] { c.swap(*d); });
      c.swap(*d);
      return r;
    }
    case 25: return cost([&] { C d(std::move(c)); c = std::move(d); });
    case 26: return cost([&] { sink = cc.is_monitoring(); });
    case 27: return cost([&] { sink = c.begin() == c.ordered_begin(); sink = c.end() != c.ordered_end(); });
  }
  return 0;
}
// The same operation at the same place of a small and a large cache costs the same, up to a constant.
template <class C>
static void bounded(int room, bool extras) {
  auto s = filled<C>(SMALL, room), l = filled<C>(LARGE, room);
  if (extras) {
    s->monitor(3, SMALL);
    l->monitor(3, LARGE);
    for (auto* c : {s.get(), l.get()}) {
      c->hit_callback([](auto&, auto&) {});
      c->access_callback([](auto&, bool) {});
    }
  }
  if (std::is_same<C, CT>::value && sym_bool("expired")) __sym_now_ns += 2000;
  const int op = choice(OPS, "operation");
  const int at = choice(5, "place");
  const int ks[] = {0, 1, SMALL / 2, SMALL - 2, SMALL - 1}, kl[] = {0, 1, LARGE / 2, LARGE - 2, LARGE - 1};
  if (sym_bool("used before")) {  // another entry, or the same, is the last accessed one
    const int o = choice(2, "which");
    s->contains(o ? ks[at] : 2);
    l->contains(o ? kl[at] : 2);
  }
  const uint64_t a = perform(*s, op, ks[at], SMALL), b = perform(*l, op, kl[at], LARGE);
  if (b > a + a / 8 + 150) {
    obs(op);
    __sym_fail(WHAT[op]);
  }
  reach("end");
}
// 28 operations at 5 places of caches with 8 and 768 (3072) entries: full caches
ENTRY(full) { bounded<CU>(0, false); }
ENTRY(full_timed) { bounded<CT>(0, false); }
// caches with room
ENTRY(room) { __sym_min_buckets = 2; bounded<CU>(5, false); }
ENTRY(room_timed) { bounded<CT>(5, false); }
// monitored, with callbacks
ENTRY(monitored) { bounded<CU>(0, true); }
ENTRY(monitored_timed) { bounded<CT>(0, true); }

// The same for every key, stored or not, every value and, in timed caches, every age.
template <class C, int N>
static void keyed(bool extras) {
  auto s = filled<C>(SMALL, 0), l = filled<C>(N, 0);
  if (extras) {
    s->monitor(3, SMALL);
    l->monitor(3, N);
    for (auto* c : {s.get(), l.get()}) {
      c->hit_callback([](auto&, auto&) {});
      c->miss_callback([](auto&) {});
    }
  }
  if (std::is_same<C, CT>::value) __sym_now_ns += (int64_t)__sym_var(12, "elapsed");
  const int op = choice(9, "operation");
  const bool used = sym_bool("used before");
  const int k = sym_int("key");
  if (used) l->contains(k);
  auto go = [op](C& c, int key) {
    const C& cc = c;
    volatile uint64_t sink = 0;
    return cost([&] {
      switch (op) {
        case 0: sink = cc.contains(key); break;
        case 1: c.find(key); break;
        case 2: cc.find(key); break;
        case 3: throws([&] { sink = c.lookup(key); }); break;
        case 4: throws([&] { sink = cc.lookup(key); }); break;
        case 5: throws([&] { sink = c[key]; }); break;
        case 6: c.insert(key, 7); break;
        case 7: c.emplace(key, 7); break;
        case 8: c.erase(key); break;
      }
    });
  };
  const uint64_t b = go(*l, k);
  uint64_t a = go(*s, 4);  // a stored key
  const uint64_t a2 = go(*s, SMALL + 3);  // one that is not stored
  if (a2 > a) a = a2;
  if (b > a + a / 8 + 150) {
    obs(op);
    __sym_fail(WHAT[op]);
  }
  reach("end");
}
// every 32-bit key: contains, find, lookup, operator[], insert, emplace, erase in caches with 8 and 256 (1024) entries
ENTRY(keys) { keyed<CU, TIER(256, 1024)>(false); }
ENTRY(keys_timed) { keyed<CT, TIER(256, 1024)>(false); }
// monitored, with callbacks
ENTRY(keys_monitored) { keyed<CU, TIER(64, 256)>(true); }

// Operations on all entries take time linear in their number.
template <class C>
static uint64_t whole(int op, int n) {
  volatile uint64_t sink = 0;
  if (op < 2) {
    std::unique_ptr<C> f(Make<C>::make(op == 0 ? n : n / 2));
    return cost([&] { for (int i = 0; i < n; i++) f->insert(i, i); });
  }
  auto p = filled<C>(n, 0);
  C& c = *p;
  const C& cc = c;
  switch (op) {
    case 2: return cost([&] { for (auto& e : cc) sink = e.second; });
    case 3: return cost([&] { for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it) sink = it->second; });
    case 4: return cost([&] { for (auto it = c.ordered_end(); it != c.ordered_begin();) { --it; sink = it->second; } });
    case 5: return cost([&] { c.clear(); });
    case 6: return cost([&] { C d(cc); });
    case 7: {
      auto d = filled<C>(n, 0);
      return cost([&] { sink = *d == cc; });
    }
    case 8: return cost([&] { c.shrink(1); });
    case 9: return cost([&] { for (int i = 0; i < n; i++) c.insert(i + n, i); });
    case 10: return cost([&] { for (int i = n; i-- > 0;) c.erase(i); });
    case 11:
      if constexpr (std::is_same<C, CT>::value) return cost([&] { sink = cc.all_expired(); });
      return 0;
    case 12:
      if constexpr (std::is_same<C, CT>::value) {
        __sym_now_ns += 2000;
        return cost([&] { sink = c.clear_expired(); });
      }
      return 0;
    case 13:  // half of the entries have expired: the oldest ones, the newest ones, or every other one
    case 14:
    case 15:
      if constexpr (std::is_same<C, CT>::value) {
        __sym_now_ns += 700;
        for (int i = 0; i < n; i++)
          if (op == 15 ? i % 2 : i >= n / 2) c.insert(i, i);  // these are fresh
        if (op == 14)
          for (int i = 0; i < n / 2; i++) c.contains(i);  // the expired ones were used last
        __sym_now_ns += 700;
        const uint64_t r = cost([&] { sink = c.clear_expired(); });
        CHECK(c.size() == (size_t)n / 2, "clear_expired is wrong");
        return r;
      }
      return 0;
    case 16:  // ranges of stored elements, new elements, and elements stored twice
    case 17:
    case 18: {
      std::vector<std::pair<int, int>> v;
      v.reserve(n);
      for (int i = 0; i < n; i++) v.emplace_back(op == 16 ? i : op == 17 ? i + n : i % 2, i);
      if (sym_bool("rvalue")) return cost([&] { sink = c.insert(std::move(v)); });
      return cost([&] { sink = c.insert(v); });
    }
    case 19: {
      std::vector<std::pair<int, int>> v;
      v.reserve(n);
      for (int i = 0; i < n; i++) v.emplace_back(i + n, i);
      return cost([&] { c = v; });
    }
    case 20: {
      auto d = filled<C>(n / 2, n);
      return cost([&] { *d = cc; });
    }
    case 21: return cost([&] { for (auto it = c.ordered_begin(); it != c.ordered_end();) { auto next = it; ++next; c.erase(it); it = next; } });
    case 22: return cost([&] { for (auto it = c.begin(); it != c.end();) { auto next = it; ++next; c.erase(it); it = next; } });
    case 23: return cost([&] { while (!cc.is_empty()) c.erase(c.ordered_begin()); });
    case 24: return cost([&] { for (int i = n; i-- > 0;) c.capacity(i); });
    case 25: return cost([&] { for (int i = 0; i < n; i++) { sink = cc.contains(i); sink = c.lookup(n - 1 - i); } });
    case 26:  // equal entries in another order
    {
      auto d = filled<C>(n, 0);
      d->contains(0);
      return cost([&] { sink = *d == cc; });
    }
    case 27: return cost([&] { for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it) { sink = it.key() + it.value() + it.entry().value() + cc.is_valid(it); } });
    case 28: return cost([&] { for (auto it = c.begin(); it != c.end(); ++it) { sink = it.key() + it.value() + it.entry().value() + c.is_valid(it); } });
  }
  return 0;
}
template <class C>
static void linear() {
  static const char* const W[] = {"filling a cache", "filling a cache twice", "unordered iteration", "ordered iteration", "iteration backwards", "clear", "copying a cache",
                                  "comparing caches", "shrink", "evicting every entry", "erasing every entry", "all_expired", "clear_expired",
                                  "clear_expired when the oldest half has expired", "clear_expired when the newest half has expired", "clear_expired when every other entry has expired",
                                  "inserting a range of stored elements", "inserting a range of new elements", "inserting a range of the same two elements", "assigning a range", "assigning a cache",
                                  "erasing by ordered iterators", "erasing by unordered iterators", "erasing the oldest entries", "lowering the capacity step by step", "looking up every entry twice",
                                  "comparing caches of different order", "checked ordered iteration", "checked unordered iteration"};
  const int op = choice(29, "operation");
  constexpr int N = TIER(128, 512);
  const uint64_t a = whole<C>(op, N), b = whole<C>(op, 4 * N);
  if (b > 5 * a + 3000) {
    obs(op);
    __sym_fail(W[op]);
  }
  reach("end");
}
// 29 operations on all entries (filling, iterating, clearing, clearing expired entries in 4 patterns, copying, comparing, ranges, shrinking, evicting, erasing): 4 times as many entries cost at most 5 times as much
ENTRY(whole_untimed) { linear<CU>(); }
ENTRY(whole_timed) { linear<CT>(); }
