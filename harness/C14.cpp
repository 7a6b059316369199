#define OWN (G_ITER | G_VALUE)
#include "hist.hpp"

enum Outcome { OK, END, EXPIRED };
// Checked access through one iterator: the given outcome, key and value.
template <class It>
static void access(It it, Outcome want, int k, int v, bool deref) {
  if (deref && want != END) {  // fills the iterator's entry
    CHECK(it->first == k && it->second == v, "dereferencing yields a wrong entry");
    CHECK((*it).key() == k && (*it).value() == v, "dereferencing yields a wrong entry");
  }
  Outcome got = OK;
  try {
    switch (choice(3, "access")) {
      case 0: { auto& e = it.entry(); CHECK(e.first == k && e.second == v && e.key() == k && e.value() == v, "entry() yields a wrong entry"); break; }
      case 1: CHECK(it.key() == k, "key() yields a wrong key"); break;
      case 2: CHECK(it.value() == v, "value() yields a wrong value"); break;
    }
  } catch (const LRU::Error::InvalidIterator&) {
    got = END;
  } catch (const LRU::Error::KeyExpired&) {
    got = EXPIRED;
  }
  obs(got);
  CHECK(got == want, want == OK ? "checked access throws for a valid iterator" : want == END ? "checked access to an end iterator does not throw InvalidIterator" : "checked access to an expired entry does not throw KeyExpired");
  if (want != END) CHECK(it->first == k && it->second == v, "dereferencing yields a wrong entry");
}
template <class C, class It>
static void validity(const C& c, It it, Outcome want) {
  bool valid = c.is_valid(it);
  obs(valid);
  CHECK(valid == (want == OK), valid ? "is_valid is true for an invalid iterator" : "is_valid is false for a valid iterator");
  Outcome got = OK;
  try {
    c.throw_if_invalid(it);
  } catch (const LRU::Error::InvalidIterator&) {
    got = END;
  } catch (const LRU::Error::KeyExpired&) {
    got = EXPIRED;
  }
  CHECK(got == want, "throw_if_invalid does the wrong thing");
}
template <class S, class It>
static void examine(S& s, It it, int i, bool later) {
  bool deref = sym_bool("dereferenced");
  if (deref && i < s.m.n) obs((uint32_t)it->second);
  if (later) s.tick();  // may expire with the entry already cached in the iterator
  Outcome want = i >= s.m.n ? END : s.m.expired(i) ? EXPIRED : OK;
  int k = i < s.m.n ? s.m.e[i].key : 0, v = i < s.m.n ? s.m.e[i].val : 0;
  validity(s.c, it, want);
  // the iterator itself (with what it may have cached), or a copy
  if (sym_bool("copy")) access(it, want, k, v, deref);
  else access(std::move(it), want, k, v, false);
  switch (want) { case OK: reach("valid"); break; case END: reach("end"); break; default: reach("expired"); }
}
template <class S, uint32_t Ops>
static void history(int n, int k) {
  using C = typename S::Cache;
  S s = S::any();
  s.prestate(n);
  for (int i = 0; i < k; i++) s.template step<Ops>();
  auto& c = s.c;
  const auto& cc = s.c;
  uint32_t p = choice(s.m.n + 1, "position");
  switch (choice(5, "iterator")) {
    case 0: {
      auto it = c.ordered_begin();
      for (uint32_t j = 0; j < p; j++) ++it;
      examine(s, it, p, S::timed);
      break;
    }
    case 1: {
      auto it = cc.ordered_begin();
      for (uint32_t j = 0; j < p; j++) ++it;
      examine(s, it, p, S::timed);
      break;
    }
    case 2: {
      auto it = c.unordered_begin();
      for (uint32_t j = 0; j < p; j++) ++it;
      int i = it == c.unordered_end() ? s.m.n : s.m.find(it->first);
      ASSUME(i >= 0);
      auto fresh = c.unordered_begin();
      for (uint32_t j = 0; j < p; j++) ++fresh;
      examine(s, fresh, i, S::timed);
      break;
    }
    case 3: {
      auto it = cc.begin();
      for (uint32_t j = 0; j < p; j++) ++it;
      int i = it == cc.end() ? s.m.n : s.m.find(it->first);
      ASSUME(i >= 0);
      examine(s, it, i, S::timed);
      break;
    }
    case 4: {  // the iterator of a lookup
      int key = sym_int("key");
      int i = s.expect_lookup(key);
      auto it = c.find(key);
      ASSUME((it == c.end()) == (i < 0));
      examine(s, it, i < 0 ? s.m.n : i, S::timed);
      break;
    }
  }
  s.verify();
}
constexpr uint32_t OPS = O_INSERT | O_CONTAINS | O_FIND | O_ERASE | O_CAPACITY | O_ASSIGN;
// any capacity, up to 3 entries, 1 (2) operations, every kind of iterator at every position, dereferenced before or not, copied or not
ENTRY(checked_u) { history<U<>, OPS>(TIER(2, 3), TIER(1, 2)); }
ENTRY(checked_bit) { history<U<HBit>, O_INSERT | O_CONTAINS>(2, 1); }
// timed: the iterator is taken before the time at which it is used
ENTRY(checked_timed) { history<T<>, OPS | O_CLEAR_EXPIRED>(2, TIER(1, 2)); }
ENTRY(checked_timed_bit) { history<T<HBit>, O_INSERT>(2, TIER(0, 1)); }

// Iterators that move after they were dereferenced, or whose value changes meanwhile.
template <class S>
static void moving(int n) {
  S s = S::any();
  s.prestate(n);
  if (s.m.n == 0) ASSUME(false);
  auto& c = s.c;
  int i = choice(s.m.n, "position");
  auto it = c.ordered_begin();
  for (int j = 0; j < i; j++) ++it;
  obs((uint32_t)it->first);
  for (int j = 0; j < 2; j++) {
    switch (choice(4, "move")) {
      case 0: if (i < s.m.n) { ++it; i++; } break;
      case 1: if (i > 0) { --it; i--; } break;
      case 2: if (i < s.m.n) { it++; i++; } break;
      case 3: if (i > 0) { it--; i--; } break;
    }
    s.tick();
    Outcome want = i >= s.m.n ? END : s.m.expired(i) ? EXPIRED : OK;
    access(it, want, i < s.m.n ? s.m.e[i].key : 0, i < s.m.n ? s.m.e[i].val : 0, sym_bool("dereferenced"));
  }
  // a new value is what the iterator shows
  if (i < s.m.n) {
    int v = sym_int("value");
    obs((uint32_t)it->second);
    int k = s.m.e[i].key;
    s.m.insert(k, v);
    c.insert(k, v);
    CHECK(it->first == k && it->second == v, "an iterator does not show the current value");
    access(it, s.m.expired(s.m.n - 1) ? EXPIRED : OK, k, v, false);
  }
  reach("end");
}
ENTRY(moving_u) { moving<U<>>(TIER(2, 3)); }
ENTRY(moving_timed) { moving<T<>>(2); }
// the same for unordered iterators: dereferenced, advanced, accessed
template <class S>
static void advancing(int n) {
  S s = S::any();
  s.prestate(n);
  if (s.m.n == 0) ASSUME(false);
  auto& c = s.c;
  auto it = c.unordered_begin();
  int count = 0;
  while (it != c.unordered_end()) {
    if (sym_bool("dereferenced")) obs((uint32_t)(*it).second);
    s.tick();
    auto probe = c.unordered_begin();
    for (int j = 0; j < count; j++) ++probe;
    int i = s.m.find(probe->first);
    ASSUME(i >= 0);
    Outcome want = s.m.expired(i) ? EXPIRED : OK;
    validity(c, it, want);
    access(it, want, s.m.e[i].key, s.m.e[i].val, false);
    if (sym_bool("postfix")) it++;
    else ++it;
    if (++count > n) break;
  }
  CHECK(count == s.m.n, "unordered iteration ends at the wrong place");
  access(it, END, 0, 0, false);
  validity(c, it, END);
  reach("end");
}
ENTRY(advancing_u) { advancing<U<>>(2); }
ENTRY(advancing_timed) { advancing<T<>>(2); }
// iterators of an empty cache
ENTRY(empty) {
  T<> s = T<>::any();
  s.prestate(1);
  s.clear();
  switch (choice(4, "iterator")) {
    case 0: examine(s, s.c.ordered_begin(), 0, true); break;
    case 1: examine(s, s.c.unordered_begin(), 0, true); break;
    case 2: examine(s, s.c.ordered_cend(), 0, true); break;
    case 3: examine(s, s.c.unordered_cend(), 0, true); break;
  }
}
