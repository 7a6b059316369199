// C30: what cannot be done throws the documented exception and changes nothing.
#define OWN (0u)
#define MODEL_MAX 200
#include "long.hpp"

enum Thrown : int { NOTHING, KEY_NOT_FOUND, KEY_EXPIRED, EMPTY_CACHE, CONVERSION, INVALID, UNMONITORED, NOT_MONITORING, OTHER_RUNTIME, OTHER };
// What f throws.
template <class F>
static int thrown_by(F&& f) {
  int r = NOTHING;
  try {
    f();
  } catch (const LRU::Error::KeyNotFound&) { r = KEY_NOT_FOUND;
  } catch (const LRU::Error::KeyExpired&) { r = KEY_EXPIRED;
  } catch (const LRU::Error::EmptyCache&) { r = EMPTY_CACHE;
  } catch (const LRU::Error::InvalidIteratorConversion&) { r = CONVERSION;
  } catch (const LRU::Error::InvalidIterator&) { r = INVALID;
  } catch (const LRU::Error::UnmonitoredKey&) { r = UNMONITORED;
  } catch (const LRU::Error::NotMonitoring&) { r = NOT_MONITORING;
  } catch (const std::runtime_error&) { r = OTHER_RUNTIME;
  } catch (...) { r = OTHER; }
  return r;
}
// Every error can be handled as a std::runtime_error.
template <class F>
static bool runtime_error(F&& f) {
  try { f(); } catch (const std::runtime_error&) { return true; } catch (...) { return false; }
  return true;
}
template <class F>
static void expect(F&& f, int want, const char* what) {
  if (want != NOTHING && sym_bool("as runtime_error")) {
    CHECK(runtime_error(f), "an error of the library is not a std::runtime_error");
    return;
  }
  const int r = thrown_by(f);
  obs(r);
  CHECK(r == want, what);
}
// The whole observable state of a cache (recency order, values, counts, calls of callbacks).
struct Calls {
  int hits = 0, misses = 0, accesses = 0;
};
template <class S>
struct Watch {
  S& s;
  Calls calls;
  bool monitored;
  int key;
  size_t h = 0, m = 0, kh = 0, km = 0;
  Calls want;
  explicit Watch(S& s_) : s(s_) {
    using CB = typename S::Cache;
    (void)sizeof(CB);
    Calls* p = &calls;
    s.c.hit_callback([p](const int&, const int&) { p->hits++; });
    s.c.miss_callback([p](const int&) { p->misses++; });
    s.c.access_callback([p](const int&, bool) { p->accesses++; });
    monitored = sym_bool("monitored");
    key = 0;
    if (monitored) {
      key = sym_int("monitored key");
      s.c.monitor(key);
    }
  }
  // after the lookups of the driver
  void lookups() {
    for (int i = 0; i < s.nlog; i++) {
      (s.log[i].hit ? want.hits : want.misses)++;
      want.accesses++;
      if (monitored) {
        (s.log[i].hit ? h : m)++;
        if (s.log[i].key == key) (s.log[i].hit ? kh : km)++;
      }
    }
    s.nlog = 0;
  }
  void unchanged() {
    lookups();
    const auto& cc = s.c;
    CHECK(calls.hits == want.hits && calls.misses == want.misses && calls.accesses == want.accesses, "a request that failed called callbacks (other than those of a lookup's miss)");
    CHECK(cc.is_monitoring() == monitored, "a request that failed changed whether the cache is monitored");
    if (monitored) {
      const auto& st = cc.stats();
      CHECK(st.total_hits() == h && st.total_misses() == m, "a request that failed changed the statistics (other than by a lookup's miss)");
      CHECK(st.number_of_monitored_keys() == 1 && st.is_monitoring(key) && st.hits_for(key) == kh && st.misses_for(key) == km, "a request that failed changed the statistics of a key (other than by a lookup's miss)");
    }
    CHECK(cc.capacity() == s.m.cap && cc.size() == (size_t)s.m.n, "a request that failed changed the size or capacity");
    Model r = read(cc);
    CHECK(same(r, s.m), "a request that failed changed the entries, their values or their order");
    observe(r);
  }
};
// The state before, as it is (not what another property says it should be): the model follows the cache here.
template <class S>
static void adopt(S& s) {
  Model r = read(s.c);
  bool ok = r.n == s.m.n;
  for (int i = 0; i < s.m.n && ok; i++) ok = r.e[i].key == s.m.e[i].key && r.e[i].val == s.m.e[i].val;
  ASSUME(ok);
  ASSUME(s.c.size() == (size_t)s.m.n && s.c.capacity() == s.m.cap);
}
template <class S, class It, class C>
static void checked_access(S&, C& c, It it, int want) {
  const auto& cc = c;
  switch (choice(4, "access")) {
    case 0: expect([&] { obs((uint32_t)it.key()); }, want, "key() through an iterator throws the wrong thing"); break;
    case 1: expect([&] { obs((uint32_t)it.value()); }, want, "value() through an iterator throws the wrong thing"); break;
    case 2: expect([&] { obs((uint32_t)it.entry().first); }, want, "entry() of an iterator throws the wrong thing"); break;
    case 3: expect([&] { cc.throw_if_invalid(it); }, want, "throw_if_invalid throws the wrong thing"); break;
  }
}
constexpr int KINDS = 9;
template <class S>
static void request(S& s, uint32_t kind) {
  using C = typename S::Cache;
  C& c = s.c;
  const C& cc = s.c;
  switch (kind) {
    case 0:  // a lookup of any key
    case 1: {
      const int k = sym_int("key");
      const int j = s.m.find(k);
      const bool stale = j >= 0 && s.m.expired(j);
      const int i = s.expect_lookup(k);
      const bool as_base = i < 0 && sym_bool("as runtime_error");
      const uint32_t form = choice(2, "const");
      auto ask = [&] {
        if (kind == 0) { if (form) obs((uint32_t)cc.lookup(k)); else obs((uint32_t)c.lookup(k)); }
        else { if (form) obs((uint32_t)cc[k]); else obs((uint32_t)c[k]); }
      };
      if (as_base) {
        CHECK(runtime_error(ask), "an error of the library is not a std::runtime_error");
      } else {
        const int r = thrown_by(ask);
        obs(r);
        if (i >= 0) CHECK(r == NOTHING, "a lookup of a stored key throws");
        else if (stale) CHECK(r == KEY_EXPIRED || r == KEY_NOT_FOUND, "a lookup of an expired key throws neither KeyExpired nor KeyNotFound");
        else CHECK(r == KEY_NOT_FOUND, "a lookup of a key that is not stored does not throw KeyNotFound");
      }
      break;
    }
    case 2: {  // an end iterator, of each kind
      switch (choice(5, "iterator")) {
        case 0: checked_access(s, c, c.unordered_end(), INVALID); break;
        case 1: checked_access(s, c, cc.unordered_end(), INVALID); break;
        case 2: checked_access(s, c, c.ordered_end(), INVALID); break;
        case 3: checked_access(s, c, cc.ordered_end(), INVALID); break;
        case 4: {  // one that was moved to the end
          auto it = c.ordered_begin();
          for (int i = 0; i < s.m.n; i++) ++it;
          checked_access(s, c, it, INVALID);
          break;
        }
      }
      break;
    }
    case 3:  // erasing the end
      switch (choice(4, "iterator")) {
        case 0: expect([&] { c.erase(c.unordered_end()); }, INVALID, "erasing an end iterator does not throw InvalidIterator"); break;
        case 1: expect([&] { c.erase(c.unordered_cend()); }, INVALID, "erasing an end iterator does not throw InvalidIterator"); break;
        case 2: expect([&] { c.erase(c.ordered_end()); }, INVALID, "erasing an end iterator does not throw InvalidIterator"); break;
        case 3: expect([&] { c.erase(c.ordered_cend()); }, INVALID, "erasing an end iterator does not throw InvalidIterator"); break;
      }
      break;
    case 4:  // converting iterators
      switch (choice(4, "conversion")) {
        case 0: expect([&] { typename C::OrderedIterator o(c.unordered_end()); }, CONVERSION, "converting an end iterator does not throw InvalidIteratorConversion"); break;
        case 1: expect([&] { typename C::OrderedConstIterator o(c.unordered_end()); }, CONVERSION, "converting an end iterator does not throw InvalidIteratorConversion"); break;
        case 2: expect([&] { typename C::OrderedConstIterator o(cc.unordered_end()); }, CONVERSION, "converting an end iterator does not throw InvalidIteratorConversion"); break;
        case 3: {
          const int want = s.m.n ? NOTHING : CONVERSION;
          expect([&] { typename C::OrderedIterator o(c.unordered_begin()); obs(o == c.ordered_end()); }, want, "converting an iterator throws the wrong thing");
          break;
        }
      }
      break;
    case 5:  // statistics of the cache
      if (choice(2, "const")) expect([&] { obs(cc.stats().total_accesses()); }, cc.is_monitoring() ? NOTHING : NOT_MONITORING, "stats() throws the wrong thing");
      else expect([&] { obs(c.stats().total_accesses()); }, cc.is_monitoring() ? NOTHING : NOT_MONITORING, "stats() throws the wrong thing");
      break;
    case 6: {  // statistics of a key
      if (!cc.is_monitoring()) ASSUME(false);
      const int k = sym_int("key");
      auto& st = c.stats();
      const int want = st.is_monitoring(k) ? NOTHING : UNMONITORED;
      switch (choice(6, "count")) {
        case 0: expect([&] { obs(st.hits_for(k)); }, want, "hits_for throws the wrong thing"); break;
        case 1: expect([&] { obs(st.misses_for(k)); }, want, "misses_for throws the wrong thing"); break;
        case 2: expect([&] { obs(st.accesses_for(k)); }, want, "accesses_for throws the wrong thing"); break;
        case 3: expect([&] { obs(st.stats_for(k).accesses()); }, want, "stats_for throws the wrong thing"); break;
        case 4: if (want == NOTHING) ASSUME(false); else expect([&] { st.unmonitor(k); }, want, "unmonitor throws the wrong thing"); break;
        case 5: if (want == NOTHING) ASSUME(false); else expect([&] { st.reset_key(k); }, want, "reset_key throws the wrong thing"); break;
      }
      break;
    }
    case 7:  // front and back
      if constexpr (!S::timed) {
        const int want = s.m.n ? NOTHING : EMPTY_CACHE;
        if (choice(2, "which")) expect([&] { obs((uint32_t)cc.front()); }, want, "front() throws the wrong thing");
        else expect([&] { obs((uint32_t)cc.back()); }, want, "back() throws the wrong thing");
      } else {
        ASSUME(false);
      }
      break;
    case 8: {  // an iterator to any entry, possibly expired by now
      if (s.m.n == 0) ASSUME(false);
      const int p = choice(s.m.n, "position");
      switch (choice(3, "iterator")) {
        case 0: {
          auto it = c.ordered_begin();
          for (int j = 0; j < p; j++) ++it;
          s.tick();
          checked_access(s, c, it, s.m.expired(p) ? KEY_EXPIRED : NOTHING);
          break;
        }
        case 1: {
          auto it = cc.ordered_begin();
          for (int j = 0; j < p; j++) ++it;
          s.tick();
          checked_access(s, c, it, s.m.expired(p) ? KEY_EXPIRED : NOTHING);
          break;
        }
        case 2: {
          auto it = c.unordered_begin();
          for (int j = 0; j < p; j++) ++it;
          const int i = s.m.find(it->first);
          ASSUME(i >= 0);
          s.tick();
          checked_access(s, c, it, s.m.expired(i) ? KEY_EXPIRED : NOTHING);
          break;
        }
      }
      break;
    }
  }
}
template <class S, uint32_t Ops>
static void misuse(int n, int before, int requests) {
  S s = S::any();
  s.prestate(n);
  Watch<S> w(s);
  for (int i = 0; i < before; i++) {
    s.template step<Ops>();
    w.lookups();
  }
  adopt(s);
  ASSUME(w.calls.hits == w.want.hits && w.calls.misses == w.want.misses && w.calls.accesses == w.want.accesses);
  for (int i = 0; i < requests; i++) {
    s.tick();
    request(s, choice(KINDS, "request"));
    w.unchanged();
  }
  reach("end");
}
constexpr uint32_t BEFORE = O_INSERT | O_CONTAINS | O_FINDC | O_ERASE | O_CLEAR | O_CAPACITY;
// any capacity, up to 2 (3) entries, one operation, then a request of 9 kinds that fails or not
ENTRY(misuse_u) { misuse<U<>, BEFORE>(TIER(2, 3), 1, 1); }
// two requests in a row, up to 1 (2) entries
ENTRY(twice_u) { misuse<U<>, O_INSERT | O_CONTAINS>(TIER(1, 2), TIER(0, 1), 2); }
// timed caches
ENTRY(misuse_timed) { misuse<T<>, BEFORE>(TIER(1, 2), 1, 1); }
ENTRY(twice_timed) { misuse<T<>, O_INSERT | O_CONTAINS>(TIER(1, 2), 0, 2); }
// two hash values
ENTRY(misuse_bit) { misuse<U<HBit>, O_INSERT | O_CONTAINS | O_ERASE>(2, 1, 1); }

// After a request that failed, another operation does what it does without that request.
template <class S>
static void usable(int n) {
  size_t cap = sym_size("capacity");
  int64_t ttl = S::timed ? any_ttl() : 0;
  S s(cap, ttl), t(cap, ttl);
  const int entries = choice(n + 1, "entries");
  for (int i = 0; i < entries; i++) {
    s.tick();
    int k = sym_int("key"), v = sym_int("value");
    s.m.insert(k, v);
    s.c.insert(k, v);
    t.c.insert(k, v);
  }
  if (entries && sym_bool("use")) {  // the last accessed entry is not the newest insertion, or there is none
    int k = s.m.n ? s.m.e[0].key : 0;
    s.expect_lookup(k);
    obs(s.c.contains(k));
    obs(t.c.contains(k));
  }
  adopt(s);
  Model before = s.m;
  request(s, choice(KINDS, "request"));
  if (!same(before, s.m)) ASSUME(false);  // a lookup that succeeded
  auto& a = s.c;
  auto& b = t.c;
  const int k = sym_int("key"), v = sym_int("value");
  const char* wrong = "after a request that failed an operation has another result than without it";
  s.tick();
  switch (choice(8, "operation")) {
    case 0: { bool x = a.insert(k, v).was_inserted(), y = b.insert(k, v).was_inserted(); CHECK(x == y, wrong); break; }
    case 1: { bool x = a.emplace(k, v).was_inserted(), y = b.emplace(k, v).was_inserted(); CHECK(x == y, wrong); break; }
    case 2: { bool x = a.contains(k), y = b.contains(k); CHECK(x == y, wrong); break; }
    case 3: { bool x = a.find(k) == a.end(), y = b.find(k) == b.end(); CHECK(x == y, wrong); break; }
    case 4: { bool x = a.erase(k), y = b.erase(k); CHECK(x == y, wrong); break; }
    case 5: a.shrink(1); b.shrink(1); break;
    case 6: { int x = thrown_by([&] { obs((uint32_t)a.lookup(k)); }), y = thrown_by([&] { obs((uint32_t)b.lookup(k)); });
      CHECK((x == NOTHING) == (y == NOTHING), wrong); break; }
    case 7: if (a.size()) { a.erase(a.ordered_begin()); b.erase(b.ordered_begin()); } break;
  }
  Model x = read(a), y = read(b);
  CHECK(same(x, y), "after a request that failed an operation does something else than without it");
  CHECK(a.size() == b.size() && a.capacity() == b.capacity(), "after a request that failed an operation does something else than without it");
  observe(x);
  reach("end");
}
// any capacity, up to 2 entries, a request of 9 kinds, then one of 8 operations with any key, compared to a cache without the request
ENTRY(usable_u) { usable<U<>>(2); }
ENTRY(usable_timed) { usable<T<>>(TIER(1, 2)); }
ENTRY(usable_bit) { usable<U<HBit>>(TIER(1, 2)); }
