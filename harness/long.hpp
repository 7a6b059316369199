// Long histories: what the entries with a few arbitrary operations cannot reach
// (thresholds in the number of operations or of entries).
#pragma once
#include "hist.hpp"

// The same two operations, with the same two arbitrary keys, again and again.
constexpr uint32_t PUMP = O_INSERT | O_EMPLACE | O_CONTAINS | O_FIND | O_LOOKUPC | O_ERASE;
template <class S>
static void pump_once(S& s, uint32_t op, int k, int v) {
  s.nlog = 0;
  if (op & LOOKUPS) s.lookup(op, k);
  else if (op == O_INSERT) s.insert(k, v);
  else if (op == O_EMPLACE) s.emplace(k, v);
  else s.erase(k);
}
template <class S, uint32_t First = PUMP, uint32_t Second = PUMP, class F>
static void pump(S& s, int times, F&& each) {
  const uint32_t a = 1u << nth_bit(First, choice(__builtin_popcount(First), "operation"));
  const uint32_t b = 1u << nth_bit(Second, choice(__builtin_popcount(Second), "other operation"));
  const int k = sym_int("key"), l = sym_int("other key");
  const int64_t d = S::timed ? (int64_t)__sym_var(6, "elapsed") : 0;
  for (int i = 0; i < times; i++) {
    if (S::timed) __sym_now_ns += d;
    pump_once(s, a, k, 1000 + i);
    each(s);
    pump_once(s, b, l, 2000 + i);
    each(s);
  }
  s.verify();
}
template <class S, uint32_t First = PUMP, uint32_t Second = PUMP>
static void pump(int before, int times) {
  S s = S::any();
  s.prestate(before);
  pump<S, First, Second>(s, times, [](S&) {});
#ifdef CHECK_LEAKS
  s.own.reset();
  __sym_leaks();
#endif
  reach("end");
}

// A fixed long sequence of operations of every kind, then one arbitrary operation.
struct Sequence {
  uint32_t x;
  uint32_t operator()(uint32_t n) {
    x = x * 1664525u + 1013904223u;
    return (x >> 8) % n;
  }
};
struct Nothing {
  template <class S> void operator()(S&) const {}
};
// After every operation `each` is called (s.log has the lookups of that operation).
template <class S, class F = Nothing>
static void busy(S& s, Sequence& next, int steps, int keys, F&& each = F(), bool clears = true) {
  typename S::Cache& c = s.c;
  for (int i = 0; i < steps; i++) {
    s.nlog = 0;
    if (S::timed) __sym_now_ns += next(40);
    const int k = next(keys);
    switch (next(20)) {
      case 0: case 1: case 2: case 3: case 4: s.insert(k, i); break;
      case 5: case 6: s.emplace(k, i); break;
      case 7: s.piecewise(k, i); break;
      case 8: s.lookup(O_CONTAINS, k); break;
      case 9: s.lookup(O_FIND, k); break;
      case 10: s.lookup(O_FINDC, k); break;
      case 11: s.lookup(O_LOOKUP, k); break;
      case 12: s.lookup(O_LOOKUPC, k); break;
      case 13: s.lookup(next(2) ? O_INDEX : O_INDEXC, k); break;
      case 14: s.erase(k); break;
      case 15:
        if (s.m.n) {  // by iterator: the key is known
          const int j = next(s.m.n);
          auto it = c.ordered_begin();
          for (int p = 0; p < j; p++) ++it;
          s.m.erase(s.m.e[j].key);
          c.erase(it);
        }
        break;
      case 16: {
        const int v[3] = {(int)next(keys), (int)next(keys), (int)next(keys)};
        std::vector<std::pair<int, int>> r;
        size_t fresh = 0;
        for (int q : v) {
          r.emplace_back(q, q);
          fresh += s.m.insert(q, q);
        }
        const size_t got = next(2) ? c.insert(r) : c.insert(std::move(r));
        chk<G_INSERT>(got == fresh, "insertion of a range returned the wrong number of new elements");
        break;
      }
      case 17: if (s.m.find(k) >= 0 && !s.m.expired(s.m.find(k))) s.assign(next(3), k, -i); break;
      case 18:
        switch (next(8)) {
          case 0: s.shrink(s.m.n - s.m.n / 8); break;
          case 1: { const size_t cap = s.m.cap; s.capacity(s.m.n - s.m.n / 4); s.capacity(cap); break; }
          case 2: if (clears && next(4) == 0) s.clear(); break;
          default: s.lookup(O_CONTAINS, k); break;
        }
        break;
      case 19:
        if constexpr (S::timed) {
          if (next(3) == 0) {
            const int x = s.m.clear_expired();
            chk<G_TIME>(c.clear_expired() == (size_t)x, "clear_expired returned the wrong number");
          }
        } else s.insert(k, i);
        break;
    }
    each(s);
    if (i % 16 == 0) s.verify();
  }
}
// A cache of capacity 20 or 150 after many operations on keys below `keys`.
struct Size {
  bool big;
  int cap, keys;
  int64_t ttl;
};
static Size any_size() {
  const bool big = sym_bool("large");
  return big ? Size{true, 150, 190, 1 << 20} : Size{false, 20, 40, 300};
}
static Sequence any_sequence() { return Sequence{(uint32_t)choice(TIER(2, 6), "sequence") * 7919u + 17u}; }
template <class S>
static void long_history(int steps, int small, int large, uint32_t last) {
  const bool big = sym_bool("large");
  const int cap = big ? large : small;
  Sequence next{(uint32_t)choice(TIER(2, 6), "sequence") * 7919u + 17u};
  S s(cap, big ? 1 << 20 : 300);
  busy(s, next, steps, big ? large + large / 4 : 2 * small);
  s.tick();
  s.perform(1u << nth_bit(last, choice(__builtin_popcount(last), "operation")));
  s.verify();
  s.verify_unordered();
#ifdef CHECK_LEAKS
  s.own.reset();
  __sym_leaks();
#endif
  reach("end");
}
constexpr uint32_t LAST = LOOKUPS3 | O_INSERT | O_EMPLACE | O_ERASE | O_SHRINK | O_ERASE_O;

// One kind of operation many times over (nothing arbitrary), then one arbitrary operation.
template <class S, class F = Nothing>
static void bursts(int times, uint32_t last, F&& each = F()) {
  const bool big = TIER(false, true) && sym_bool("large");
  S s(big ? 150 : 20, 1 << 24);
  for (int i = 0; i < (big ? 150 : 15); i++) s.insert(i, i);
  s.nlog = 0;
  const uint32_t kind = choice(S::timed ? 14 : 13, "kind");
  for (int i = 0; i < times; i++) {
    s.nlog = 0;
    if (S::timed) __sym_now_ns += 1;
    switch (kind) {
      case 0: s.insert(1000 + i, i); break;
      case 1: s.insert(3, i); break;
      case 2: s.emplace(4, i); break;
      case 3: s.lookup(O_CONTAINS, 5); break;
      case 4: s.lookup(O_CONTAINS, -1); break;
      case 5: s.lookup(O_FIND, i % 15); break;
      case 6: s.lookup(O_LOOKUP, 6); break;
      case 7: if (i & 1) s.insert(7, i); else s.erase(7); break;
      case 8: s.assign(1, 8, i); break;
      case 9: if (i & 1) s.insert(2000 + i, i); else s.shrink(s.m.n - 1); break;
      case 10: s.lookup(O_FINDC, 14); break;
      case 11: s.lookup(O_LOOKUPC, i & 1 ? 9 : -1); break;
      case 12: s.piecewise(i & 1 ? 10 : 3000 + i, i); break;
      case 13:
        if constexpr (S::timed) {
          __sym_now_ns += 1 << 22;
          s.insert(i % 20, i);
          const int x = s.m.clear_expired();
          chk<G_TIME>(s.c.clear_expired() == (size_t)x, "clear_expired returned the wrong number");
        }
        break;
    }
    each(s);
    if (i % 64 == 0) s.verify();
  }
  s.verify();
  s.nlog = 0;
  s.tick();
  s.perform(1u << nth_bit(last, choice(__builtin_popcount(last), "operation")));
  each(s);
  s.verify();
  reach("end");
}
constexpr uint32_t LAST3 = O_CONTAINS | O_INSERT | O_ERASE;
constexpr int BURST = TIER(1100, 20000);

// Thousands of entries.
struct HAll { size_t operator()(const int& k) const noexcept { return (unsigned)k; } };
template <class S>
static void huge() {
  using C = typename S::Cache;
  constexpr int N = TIER(1100, 5000);
  std::unique_ptr<C> p(S::make(N, 1000));
  C& c = *p;
  const C& cc = c;
  const uint32_t op = choice(3, "operation");
  {
    std::vector<std::pair<int, int>> v;
    v.reserve(N);
    for (int i = 0; i < N - 100; i++) v.emplace_back(i, -i);
    size_t r = 0;
    switch (op) {  // (each way of filling it goes with one operation)
      case 0: r = c.insert(v); break;
      case 1: r = c.insert(std::move(v)); break;
      case 2: r = c.insert(v.begin(), v.end()); break;
    }
    chk_result<G_INSERT>(r == (size_t)(N - 100), "insertion of a range returned the wrong number of new elements");
  }
  __sym_now_ns += 600;
  for (int i = N - 100; i < N; i++) {
    const bool r = c.emplace(i, -i).was_inserted();
    chk_result<G_INSERT>(r, "was_inserted is wrong");
  }
  chk_result<G_SIZE>(cc.size() == (size_t)N && cc.is_full() && cc.space_left() == 0 && cc.capacity() == (size_t)N, "a full cache has the wrong size");
  // one arbitrary key of those around one of six places
  const int places[] = {-2, 0, 8, 1000, N - 102, N - 2};
  const int place = places[choice(6, "place")];
  const int asked = place + (int)__sym_var(2, "offset");
  int k = place;  // the same, branched over
  for (int j = 1; j < 4; j++)
    if (asked == place + j) k = place + j;
  const int value = sym_int("value");
  const bool in = k >= 0 && k < N;
  bool refreshed = false, gone = false;
  if (op == 0) {
    const bool r = cc.contains(asked);
    chk_result<G_LOOKUP>(r == in, "a lookup of one of many keys is wrong");
  } else if (op == 1) {
    auto it = c.find(asked);
    chk_result<G_LOOKUP>((it != c.end()) == in && (!in || it->second == -k), "a lookup of one of many keys is wrong");
  } else {
    const bool r = c.erase(asked);
    chk_result<G_ERASE>(r == in, "erasure of one of many keys is wrong");
    gone = in;
  }
  refreshed = in && !gone;
  // ten more push out the ten oldest
  const int evicted = gone ? 9 : 10;
  for (int i = 0; i < 10; i++) c.insert(N + i, value);
  chk_result<G_SIZE>(cc.size() == (size_t)N, "a full cache has the wrong size");
  // what is there, in order: the arbitrary key sits between the old and the new ones
  auto it = cc.ordered_cbegin();
  int next = 0, skipped = 0, count = 0;
  auto old = [&]() {  // the next of the old keys, in order, that are still there
    while (next < N && (((refreshed || gone) && next == k) || skipped < evicted)) {
      if (!((refreshed || gone) && next == k)) skipped++;
      next++;
    }
    return next < N;
  };
  while (old()) {
    chk<G_SET | G_ORDER>(it != cc.ordered_cend(), "an entry that should be stored is missing");
    chk<G_SET | G_ORDER>(it->first == next, "the oldest entries are not those that were evicted, or the order is wrong");
    chk<G_VALUE>(it->second == -next, "an entry has the wrong value");
    next++;
    ++it;
    count++;
  }
  if (refreshed) {
    chk<G_SET | G_ORDER>(it != cc.ordered_cend() && it->first == k, "a key that was used is not where it belongs");
    ++it;
    count++;
  }
  for (int i = 0; i < 10; i++) {
    chk<G_SET | G_ORDER>(it != cc.ordered_cend() && it->first == N + i && it->second == value, "a new entry is not where it belongs");
    ++it;
    count++;
  }
  chk<G_SET | G_SIZE>(it == cc.ordered_cend(), "there are more entries than there should be");
  int seen = 0;
  for (auto u = cc.begin(); u != cc.end(); ++u) seen++;
  chk<G_ITER | G_SIZE>(seen == count, "unordered iteration does not visit every entry once");
  if constexpr (S::timed) {
    __sym_now_ns += 500;  // the first N - 100 have expired
    int stale = 0;
    for (auto u = cc.ordered_cbegin(); u != cc.ordered_cend(); ++u) stale += u->first < N - 100;
    chk<G_TIME>(!cc.all_expired(), "all_expired is wrong");
    const size_t r = c.clear_expired();
    chk<G_TIME>(r == (size_t)stale, "clear_expired returned the wrong number");
    chk<G_TIME | G_SIZE | G_SET>(cc.size() == (size_t)(count - stale), "clear_expired removed the wrong number of entries");
    for (auto u = cc.ordered_cbegin(); u != cc.ordered_cend(); ++u)
      chk<G_TIME | G_SET>(u->first >= N - 100, "clear_expired left an expired entry");
  }
#ifdef CHECK_LEAKS
  p.reset();
  __sym_leaks();
#endif
  reach("end");
}
