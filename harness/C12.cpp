#define OWN (G_CALL)
#define MODEL_MAX 200
#include "long.hpp"

// What the callbacks were called with, per callback.
struct Calls {
  struct E { int key, arg; };
  static constexpr int MAX = 8;
  int n = 0;
  E e[MAX];
  void add(int k, int a) {
    if (n >= MAX) __sym_fail("too many callbacks");
    e[n++] = E{k, a};
  }
};
static Calls got[8];   // 0,1 hit; 2,3 miss; 4,5 access
static int seq[3][24];  // per kind: the order in which its callbacks ran
static int nseq[3];
static void record(int who, int k, int a) {
  got[who].add(k, a);
  if (nseq[who / 2] >= 24) __sym_fail("too many callbacks");
  seq[who / 2][nseq[who / 2]++] = who;
}
static void forget() {
  for (auto& g : got) g.n = 0;
  nseq[0] = nseq[1] = nseq[2] = 0;
}
template <class C>
static void hit(C& c, int who) { c.hit_callback([who](const int& k, const int& v) { record(who, k, v); }); }
template <class C>
static void miss(C& c, int who) { c.miss_callback([who](const int& k) { record(who, k, 0); }); }
template <class C>
static void access(C& c, int who) { c.access_callback([who](const int& k, bool h) { record(who, k, h); }); }
template <class C>
static void all(C& c) {
  hit(c, 0); hit(c, 1); miss(c, 2); miss(c, 3); access(c, 4); access(c, 5);
}
// Exactly the lookups logged since the last call were reported, to the callbacks in `on`.
template <class S>
static void compare(S& s, uint32_t on) {
  for (int w = 0; w < 6; w++) {
    int j = 0;
    if (on >> w & 1)
      for (int i = 0; i < s.nlog; i++) {
        auto& l = s.log[i];
        if (w < 2 ? !l.hit : w < 4 ? l.hit : false) continue;
        CHECK(j < got[w].n, w < 2 ? "a hit callback was not called" : w < 4 ? "a miss callback was not called" : "an access callback was not called");
        CHECK(got[w].e[j].key == l.key, "a callback got another key");
        CHECK(got[w].e[j].arg == (w < 2 ? l.val : w < 4 ? 0 : (int)l.hit), w < 2 ? "a hit callback got another value" : "an access callback got the wrong result");
        j++;
      }
    CHECK(got[w].n == j, w < 2 ? "a hit callback was called although nothing was hit" : w < 4 ? "a miss callback was called although nothing was missed" : "an access callback was called although nothing was looked up");
  }
  // both of a kind: alternating, in registration order
  for (int kind = 0; kind < 3; kind++)
    if ((on >> (2 * kind) & 3) == 3)
      for (int i = 0; i < nseq[kind]; i++) CHECK(seq[kind][i] == 2 * kind + (i & 1), "callbacks ran out of registration order");
  s.nlog = 0;
  forget();
}

template <class S, uint32_t Ops, uint32_t Mon = 1>
static void history(int n, int k) {
  forget();
  S s = S::any();
  s.prestate(n);
  if (sym_bool("lookup_before")) s.template step<O_CONTAINS | O_FIND>();
  s.nlog = 0;
  all(s.c);
  // monitoring must not make a difference
  switch (choice(Mon, "monitored")) {
    case 0: break;
    case 1: s.c.monitor(); break;
    case 2: s.c.monitor(sym_int("monitored_key")); break;
    case 3: s.c.monitor(sym_int("monitored_key"), sym_int("monitored_key")); s.c.stop_monitoring(); break;
  }
  for (int i = 0; i < k; i++) {
    s.template step<Ops>();
    compare(s, 63);
  }
  s.verify();
  compare(s, 63);
  reach("end");
}
constexpr uint32_t SILENT = O_INSERT | O_EMPLACE | O_PIECEWISE | ERASES | O_ERASE_END | O_CAPACITY | O_SHRINK | O_CLEAR | O_QUERY | O_RANGE | O_RRANGE | O_LIST | O_ASSIGN_RANGE;
constexpr uint32_t CORE = LOOKUPS | O_INSERT | O_ERASE | O_ASSIGN;
// two callbacks of each kind; any capacity, up to 2 entries, maybe a lookup before, 2 (3) operations out of all lookups, insert, erase, assignment
ENTRY(core) { history<U<>, CORE>(2, TIER(2, 3)); }
// operations that must not call anything
ENTRY(silent) { history<U<>, SILENT | O_FIND>(2, TIER(1, 2)); }
// the same lookup over and over (the last-accessed shortcut)
ENTRY(shortcut) { history<U<>, LOOKUPS3 | O_LOOKUPC>(TIER(1, 2), 3); }
// two hash values
ENTRY(bits) { history<U<HBit>, LOOKUPS | O_INSERT>(TIER(1, 2), 2); }
// timed: an expired key is a miss
ENTRY(timed) { history<T<>, LOOKUPS | O_INSERT | O_ERASE>(TIER(1, 2), 2); }
// monitored caches: no, all or one or two keys, any lookup
ENTRY(monitored_u) { history<U<>, LOOKUPS | O_INSERT, 4>(TIER(1, 2), 2); }
ENTRY(monitored_timed) { history<T<>, LOOKUPS, 4>(1, 2); }
// timed: nothing else calls
ENTRY(timed_silent) { history<T<>, SILENT | O_CLEAR_EXPIRED | O_LOOKUP>(2, TIER(1, 2)); }

// Callbacks come and go.
template <class S>
static void changing() {
  forget();
  S s = S::any();
  s.prestate(1);
  uint32_t on = 0;
  for (int i = 0; i < 2; i++) {
    switch (choice(6, "change")) {
      case 0: hit(s.c, 0); hit(s.c, 1); on |= 3; break;
      case 1: miss(s.c, 2); miss(s.c, 3); on |= 12; break;
      case 2: access(s.c, 4); access(s.c, 5); on |= 48; break;
      case 3: all(s.c); on |= 63; break;
      case 4:
        switch (choice(4, "clear")) {
          case 0: s.c.clear_hit_callbacks(); on &= ~3u; break;
          case 1: s.c.clear_miss_callbacks(); on &= ~12u; break;
          case 2: s.c.clear_access_callbacks(); on &= ~48u; break;
          case 3: s.c.clear_all_callbacks(); on = 0; break;
        }
        break;
      case 5: break;
    }
    // registering twice would call twice
    if (i == 1) ASSUME(s.c.hit_callbacks().size() <= 2 && s.c.miss_callbacks().size() <= 2 && s.c.access_callbacks().size() <= 2);
    CHECK(s.c.hit_callbacks().size() == (on & 3 ? 2u : 0u) && s.c.miss_callbacks().size() == (on & 12 ? 2u : 0u) && s.c.access_callbacks().size() == (on & 48 ? 2u : 0u), "the registered callbacks are not the expected ones");
    s.template step<LOOKUPS3 | O_LOOKUPC | O_INDEX>();
    compare(s, on);
  }
  reach("end");
}
// registering and clearing kinds of callbacks, a lookup, again
ENTRY(changing_u) { changing<U<>>(); }
ENTRY(changing_timed) { changing<T<>>(); }

// A hit callback sees the value as it is; the key is the one asked for.
// assignment through every reference, then a lookup
ENTRY(current_value) {
  forget();
  U<> s = U<>::any();
  s.prestate(2);
  s.nlog = 0;
  all(s.c);
  s.step<O_ASSIGN>();
  compare(s, 63);
  s.step<LOOKUPS>();
  compare(s, 63);
  reach("end");
}
// callbacks of a copied, moved or swapped cache: each cache keeps calling its own, exactly once
ENTRY(two_caches) {
  forget();
  U<> s = U<>::any(), t = U<>::any();
  s.prestate(1);
  t.prestate(1);
  hit(s.c, 0); miss(s.c, 2); access(s.c, 4);
  hit(t.c, 1); miss(t.c, 3); access(t.c, 5);
  s.step<LOOKUPS3 | O_LOOKUPC>();
  compare(s, 1 | 4 | 16);
  t.step<LOOKUPS3 | O_LOOKUPC>();
  compare(t, 2 | 8 | 32);
  reach("end");
}
// time passes during a lookup: exactly one report, a hit exactly if it was served
ENTRY(passing_time) {
  forget();
  T<> s(2, any_ttl());
  auto& c = s.c;
  const auto& cc = s.c;
  int k = sym_int("key");
  __sym_tick_ns = (int64_t)__sym_var(6, "passing");
  c.insert(k, 5);
  all(c);
  for (int i = 0; i < 2; i++) {
    s.tick();
    bool served = false;
    switch (choice(6, "lookup")) {
      case 0: served = cc.contains(k); break;
      case 1: served = c.find(k) != c.end(); break;
      case 2: served = cc.find(k) != cc.end(); break;
      case 3: try { obs(c.lookup(k)); served = true; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      case 4: try { obs(cc.lookup(k)); served = true; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      case 5: try { obs(c[k]); served = true; } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
    }
    s.nlog = 0;
    s.log[s.nlog++] = T<>::L{k, served, 5};
    compare(s, 63);
  }
  reach("end");
}

// ---------------------------------------------------------------- long histories

template <class S>
static void repeated(int before, int times) {
  forget();
  S s = S::any();
  s.prestate(before);
  s.nlog = 0;
  all(s.c);
  pump<S, O_INSERT | LOOKUPS3 | O_LOOKUPC, LOOKUPS3 | O_LOOKUPC | O_ERASE>(s, times, [](S& t) { compare(t, 63); });
  reach("end");
}
// any capacity, up to 1 entry, two callbacks of each kind, then 40 (timed: 16) times the same two operations (at least one lookup) with the same two arbitrary keys
ENTRY(repeated_u) { repeated<U<>>(1, 40); }
ENTRY(repeated_timed) { repeated<T<>>(0, 16); }
template <class S>
static void after_many() {
  forget();
  const Size z = any_size();
  Sequence next = any_sequence();
  S s(z.cap, z.ttl);
  busy(s, next, 100, z.keys);
  s.nlog = 0;
  all(s.c);
  if (sym_bool("monitored")) s.c.monitor(3, 5);
  busy(s, next, TIER(500, 1500), z.keys, [](S& t) { compare(t, 63); });
  s.tick();
  s.perform(1u << nth_bit(LOOKUPS3 | O_INSERT | O_ERASE, choice(5, "operation")));
  compare(s, 63);
  reach("end");
}
// 500 (1500) fixed operations in a cache of capacity 20 or 150 with two callbacks of each kind, perhaps monitored, then one arbitrary operation
ENTRY(after_many_u) { after_many<U<HLow>>(); }
ENTRY(after_many_timed) { after_many<T<HLow>>(); }
// 12 callbacks of each kind: all called, in the order of registration
ENTRY(a_dozen) {
  U<> s = U<>::any();
  s.prestate(1);
  s.nlog = 0;
  static int order[3][40];
  static int count[3];
  count[0] = count[1] = count[2] = 0;
  static int arg[3];
  for (int i = 0; i < 12; i++) {
    s.c.hit_callback([i](const int& k, const int& v) { if (count[0] < 40) order[0][count[0]++] = i; arg[0] = k ^ v; });
    s.c.miss_callback([i](const int& k) { if (count[1] < 40) order[1][count[1]++] = i; arg[1] = k; });
    s.c.access_callback([i](const int& k, bool h) { if (count[2] < 40) order[2][count[2]++] = i; arg[2] = k ^ (int)h; });
  }
  for (int r = 0; r < 2; r++) {
    count[0] = count[1] = count[2] = 0;
    s.nlog = 0;
    s.step<LOOKUPS>();
    const bool h = s.log[0].hit;
    CHECK(count[0] == (h ? 12 : 0) && count[1] == (h ? 0 : 12) && count[2] == 12, "not every callback was called once");
    for (int i = 0; i < 12; i++) CHECK(order[h ? 0 : 1][i] == i && order[2][i] == i, "callbacks ran out of registration order");
    CHECK(arg[2] == (s.log[0].key ^ (int)h) && (h ? arg[0] == (s.log[0].key ^ s.log[0].val) : arg[1] == s.log[0].key), "a callback got wrong arguments");
  }
  reach("end");
}
template <class S>
static void burst() {
  forget();
  bool started = false;
  bursts<S>(BURST, LAST3, [&](S& t) {
    if (!started) {  // the first operation is not watched
      all(t.c);
      started = true;
      t.nlog = 0;
      return;
    }
    compare(t, 63);
  });
}
// 1100 (20000) times one of 13 kinds of fixed operation in a cache with 15 (or 150) entries, then one arbitrary lookup, insertion or erasure; two callbacks of each kind
ENTRY(bursts_u) { burst<U<HLow>>(); }
ENTRY(bursts_timed) { burst<T<HLow>>(); }
