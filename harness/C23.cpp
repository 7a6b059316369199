// C23: keys and values are copied, moved or built exactly as asked.
#include "hist.hpp"

// What happened to one argument object.
struct Fate {
  int copies = 0, moves = 0;
};
// A key whose equality ignores the tag; the tag tells key objects apart.
template <int Kind>
struct Obj {
  int v = 0;
  int tag = 0;
  Fate* fate = nullptr;  // of this object, not of its copies
  Obj(int v_) : v(v_) {}
  Obj(int v_, int tag_) : v(v_), tag(tag_) {}
  Obj(const Obj& o) : v(o.v), tag(o.tag) { if (o.fate) o.fate->copies++; }
  Obj(Obj&& o) noexcept : v(o.v), tag(o.tag) { o.gone(); }
  Obj& operator=(const Obj& o) {
    v = o.v;
    tag = o.tag;
    if (o.fate) o.fate->copies++;
    return *this;
  }
  Obj& operator=(Obj&& o) noexcept {
    if (this == &o) return *this;
    v = o.v;
    tag = o.tag;
    o.gone();
    return *this;
  }
  // several arguments, each of which may be moved from
  Obj(const Obj& a, const Obj& b) : v(a.v), tag(b.v) { took(a, false); took(b, false); }
  Obj(Obj&& a, const Obj& b) : v(a.v), tag(b.v) { took(a, true); took(b, false); a.gone(); }
  Obj(const Obj& a, Obj&& b) : v(a.v), tag(b.v) { took(a, false); took(b, true); b.gone(); }
  Obj(Obj&& a, Obj&& b) : v(a.v), tag(b.v) { took(a, true); took(b, true); a.gone(); b.gone(); }
  void took(const Obj& a, bool moved) { if (a.fate && !moved) a.fate->copies++; }
  void gone() {
    if (fate) fate->moves++;
    v = -1;
    tag = -2;
  }
  friend bool operator==(const Obj& a, const Obj& b) { return a.v == b.v; }
  friend bool operator!=(const Obj& a, const Obj& b) { return a.v != b.v; }
};
using K = Obj<0>;
using V = Obj<1>;
namespace std {
template <int N> struct hash<Obj<N>> { size_t operator()(const Obj<N>&) const noexcept { return 0; } };
}
struct HK { size_t operator()(const K&) const { return 0; } };
using UC = LRU::Cache<K, V, HK>;
using TC = LRU::TimedCache<K, V, NS, HK>;

// The stored objects.
struct Shadow {
  static constexpr int MAX = 8;
  int n = 0;
  size_t cap = 0;
  int k[MAX], kt[MAX], v[MAX], vt[MAX];
  int find(int key) const {
    for (int i = 0; i < n; i++) if (k[i] == key) return i;
    return -1;
  }
  void remove(int i) {
    for (int j = i; j + 1 < n; j++) { k[j] = k[j + 1]; kt[j] = kt[j + 1]; v[j] = v[j + 1]; vt[j] = vt[j + 1]; }
    n--;
  }
  bool insert(int key, int ktag, int val, int vtag) {
    if (cap == 0) return false;
    int i = find(key);
    if (i >= 0) {
      ktag = kt[i];
      remove(i);
    }
    k[n] = key;
    kt[n] = ktag;
    v[n] = val;
    vt[n] = vtag;
    n++;
    if ((size_t)n > cap) remove(0);
    return i < 0;
  }
  void touch(int key) {
    int i = find(key);
    if (i >= 0) insert(key, kt[i], v[i], vt[i]);
  }
};
template <class C>
static void agrees(const C& c, const Shadow& s) {
  CHECK(c.size() == (size_t)s.n, "size is wrong");
  int i = 0;
  for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it, ++i) {
    CHECK(i < s.n && it->first.v == s.k[i], "the stored keys are wrong");
    CHECK(it->first.tag == s.kt[i], "the key object of an entry is not the one first inserted");
    CHECK(it->second.v == s.v[i] && it->second.tag == s.vt[i], "the value of an entry is wrong");
  }
  for (auto it = c.begin(); it != c.end(); ++it) {
    const int j = s.find(it->first.v);
    CHECK(j >= 0 && it->first.tag == s.kt[j] && it->second.v == s.v[j] && it->second.tag == s.vt[j], "an entry is wrong");
  }
}
template <class C>
static C* make(size_t cap) {
  if constexpr (std::is_same<C, TC>::value) return new C(NS(100000), cap);
  else return new C(cap);
}
template <class O>
static void intact(const O& o, int v, int tag, const Fate& f, const char* m) {
  CHECK(o.v == v && o.tag == tag && f.moves == 0, m);
}
// Up to n entries with keys that are distinct.
template <class C>
static void fill(C& c, Shadow& s, int n) {
  const int m = choice(n + 1, "entries");
  for (int i = 0; i < m; i++) {
    const int k = sym_int("key");
    for (int j = 0; j < s.n; j++) ASSUME(s.k[j] != k);
    s.insert(k, 10 + i, 20 + i, 30 + i);
    c.insert(K(k, 10 + i), V(20 + i, 30 + i));
  }
  if (sym_bool("use")) {
    const int k = sym_int("key");
    s.touch(k);
    c.contains(K(k, 99));
  }
}
enum { LV, CLV, RV };
// One insertion or emplacement with arguments of any value category.
template <class C>
static void store(C& c, Shadow& s, int i) {
  const int kv = sym_int("key");
  const int kt = 100 + i, vv = 200 + i, vt = 300 + i;
  K k(kv, kt);
  V v(vv, vt);
  const K& ck = k;
  const V& cv = v;
  Fate fk, fv;
  k.fate = &fk;
  v.fate = &fv;
  const int form = choice(12, "form");
  int kc = LV, vc = LV;
  const bool fresh = s.cap > 0 && s.find(kv) < 0;
  const size_t cap = s.cap;
  bool r = false;
  switch (form) {
    case 0: r = c.insert(k, v).was_inserted(); break;
    case 1: r = c.insert(ck, cv).was_inserted(); break;
    case 2: r = c.emplace(k, v).was_inserted(); break;
    case 3: r = c.emplace(ck, cv).was_inserted(); break;
    case 4: r = c.emplace(std::move(k), v).was_inserted(); kc = RV; break;
    case 5: r = c.emplace(k, std::move(v)).was_inserted(); vc = RV; break;
    case 6: r = c.emplace(std::move(k), std::move(v)).was_inserted(); kc = vc = RV; break;
    case 7: r = c.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::move(v))).was_inserted(); vc = RV; break;
    case 8: r = c.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(v)).was_inserted(); kc = RV; break;
    case 9: r = c.emplace(std::piecewise_construct, std::forward_as_tuple(kv, kt), std::forward_as_tuple(vv, vt)).was_inserted(); kc = vc = CLV; break;
    case 10: r = c.emplace(std::piecewise_construct, std::tuple<const int&, const int&>(kv, kt), std::tuple<const int&, const int&>(vv, vt)).was_inserted(); kc = vc = CLV; break;
    case 11: r = c.insert(std::move(k), std::move(v)).was_inserted(); break;  // insert copies
  }
  s.insert(kv, kt, vv, vt);
  CHECK(r == fresh, "was_inserted is wrong");
  if (kc != RV) intact(k, kv, kt, fk, "an lvalue key argument was modified");
  if (vc != RV) intact(v, vv, vt, fv, "an lvalue value argument was modified");
  if (kc == RV) {
    CHECK(fk.copies == 0, "an rvalue key argument was copied");
    CHECK(fk.moves <= 1, "an rvalue key argument was moved from twice");
    if (fresh) CHECK(fk.moves == 1, "an rvalue key argument was not moved from");
  }
  if (vc == RV) {
    CHECK(fv.copies == 0, "an rvalue value argument was copied");
    CHECK(fv.moves <= 1, "an rvalue value argument was moved from twice");
    if (cap > 0) CHECK(fv.moves == 1, "an rvalue value argument was not moved from");
  }
  if (cap > 0 && kc == LV && fresh) CHECK(fk.copies >= 1, "an lvalue key argument was not copied");
  if (cap > 0 && vc == LV) CHECK(fv.copies >= 1, "an lvalue value argument was not copied");
}
template <class C>
static void history(int n, int steps) {
  Shadow s;
  s.cap = sym_size("capacity");
  std::unique_ptr<C> c(make<C>(s.cap));
  fill(*c, s, n);
  for (int i = 0; i < steps; i++) store(*c, s, i);
  agrees(static_cast<const C&>(*c), s);
  reach("end");
}
// any capacity, up to 2 (3) entries, a lookup, 1 insertion or emplacement in 12 forms
ENTRY(one_u) { history<UC>(3, 1); }
ENTRY(one_timed) { history<TC>(2, 1); }
// 2 insertions or emplacements
ENTRY(two_u) { history<UC>(TIER(1, 2), TIER(2, 3)); }

// ---------------------------------------------------------------- several arguments per object
template <class C>
static void several(int n) {
  Shadow s;
  s.cap = sym_size("capacity");
  std::unique_ptr<C> c(make<C>(s.cap));
  fill(*c, s, n);
  const int kv = sym_int("key");
  K a(kv, 1), b(41, 2);
  V x(51, 3), y(61, 4);
  Fate f[4];
  a.fate = &f[0];
  b.fate = &f[1];
  x.fate = &f[2];
  y.fate = &f[3];
  const bool fresh = s.cap > 0 && s.find(kv) < 0;
  bool moved[4] = {false, false, false, false};
  bool r = false;
  auto P = std::piecewise_construct;
  switch (choice(6, "form")) {
    case 0: r = c->emplace(P, std::forward_as_tuple(a, b), std::forward_as_tuple(x, y)).was_inserted(); break;
    case 1: moved[0] = true; r = c->emplace(P, std::forward_as_tuple(std::move(a), b), std::forward_as_tuple(x, y)).was_inserted(); break;
    case 2: moved[1] = moved[2] = true; r = c->emplace(P, std::forward_as_tuple(a, std::move(b)), std::forward_as_tuple(std::move(x), y)).was_inserted(); break;
    case 3: moved[3] = true; r = c->emplace(P, std::forward_as_tuple(a, b), std::forward_as_tuple(x, std::move(y))).was_inserted(); break;
    case 4: moved[0] = moved[1] = moved[2] = moved[3] = true; r = c->emplace(P, std::forward_as_tuple(std::move(a), std::move(b)), std::forward_as_tuple(std::move(x), std::move(y))).was_inserted(); break;
    case 5: moved[2] = moved[3] = true; r = c->emplace(P, std::forward_as_tuple(kv, 41), std::forward_as_tuple(std::move(x), std::move(y))).was_inserted(); break;
  }
  const bool cap = s.cap > 0;
  s.insert(kv, 41, 51, 61);
  CHECK(r == fresh, "was_inserted is wrong");
  const int v0[4] = {kv, 41, 51, 61};
  const int now[4] = {a.v, b.v, x.v, y.v};
  for (int i = 0; i < 4; i++) {
    if (!moved[i]) CHECK(now[i] == v0[i] && f[i].moves == 0, "an lvalue constructor argument was modified");
    else {
      CHECK(f[i].copies == 0 && f[i].moves <= 1, "an rvalue constructor argument was copied or moved from twice");
      if (cap && (fresh || i >= 2)) CHECK(f[i].moves == 1, "an rvalue constructor argument was not moved from");
    }
  }
  agrees(static_cast<const C&>(*c), s);
  reach("end");
}
// any capacity, up to 2 entries, keys and values built from two arguments of any value category
ENTRY(several_u) { several<UC>(2); }
ENTRY(several_timed) { several<TC>(TIER(1, 2)); }

// A list of numbers for which (3, 7) and {3, 7} are different things.
struct Seq : std::vector<int> {
  Seq() = default;
  explicit Seq(int n) : std::vector<int>(n) {}
  Seq(int n, int v) : std::vector<int>(n, v) {}
  Seq(std::initializer_list<int> l) : std::vector<int>(l) {}
  Seq(std::vector<int>&& v) : std::vector<int>(std::move(v)) {}
};
// Values built with parentheses, from no argument, from an argument of another type.
template <class C>
static C* make_vectors(size_t cap) {
  if constexpr (std::is_same<typename C::Tag, LRU::Tag::TimedCache>::value) return new C(NS(1000), cap);
  else return new C(cap);
}
template <class C>
static void constructions() {
  std::unique_ptr<C> c(make_vectors<C>(2));
  const int k = sym_int("key");
  if (sym_bool("present")) c->insert(0, Seq{1, 2});
  auto P = std::piecewise_construct;
  size_t n = 0;
  int e = 0;
  switch (choice(5, "form")) {
    case 0: c->emplace(P, std::forward_as_tuple(k), std::forward_as_tuple(3, 7)); n = 3; e = 7; break;
    case 1: c->emplace(P, std::forward_as_tuple(k), std::forward_as_tuple(2)); n = 2; e = 0; break;
    case 2: c->emplace(P, std::forward_as_tuple(k), std::forward_as_tuple()); break;
    case 3: c->emplace(k, 4); n = 4; e = 0; break;
    case 4: c->emplace(k, std::vector<int>(1, 9)); n = 1; e = 9; break;
  }
  const Seq& v = c->lookup(k);
  CHECK(v.size() == n, "a value was not built from the given arguments");
  for (size_t i = 0; i < n; i++) CHECK(v[i] == e, "a value was not built from the given arguments");
  reach("end");
}
// values that are vectors, new and existing keys
ENTRY(constructions_u) { constructions<LRU::Cache<int, Seq, HConst>>(); }
ENTRY(constructions_timed) { constructions<LRU::TimedCache<int, Seq, NS, HConst>>(); }
// strings from literals and character counts
ENTRY(strings) {
  LRU::Cache<std::string, std::string> c(3);
  if (sym_bool("present")) c.insert("kkk", "old");
  switch (choice(3, "form")) {
    case 0: c.emplace("kkk", "vv"); break;
    case 1: c.emplace(std::piecewise_construct, std::forward_as_tuple('\3', 'k'), std::forward_as_tuple('\2', 'v')); break;
    case 2: c.emplace(std::piecewise_construct, std::forward_as_tuple("kkkxxx", (size_t)3), std::forward_as_tuple("vvw", (size_t)2)); break;
  }
  CHECK(c.size() == 1 && c.contains("kkk") && c.lookup("kkk") == "vv", "a key or value was not built from the given arguments");
  std::string a("a long string that does not fit into the small buffer"), b("another long string that does not fit");
  const std::string a0(a), b0(b);
  switch (choice(3, "second")) {
    case 0: c.insert(a, b); CHECK(a == a0 && b == b0, "insert modified its arguments"); break;
    case 1: c.emplace(a, b); CHECK(a == a0 && b == b0, "emplace modified lvalue arguments"); break;
    case 2: c.emplace(std::move(a), std::move(b)); break;
  }
  CHECK(c.lookup(a0) == b0, "a key or value was not built from the given arguments");
  reach("end");
}

// ---------------------------------------------------------------- ranges
template <class C>
static void ranges(int n, int len) {
  Shadow s;
  s.cap = sym_size("capacity");
  std::unique_ptr<C> c(make<C>(s.cap));
  fill(*c, s, n);
  std::vector<std::pair<K, V>> src;
  src.reserve(len);
  Fate f[6];
  int kv[3];
  for (int i = 0; i < len; i++) {
    kv[i] = sym_int("key");
    src.emplace_back(K(kv[i], 100 + i), V(200 + i, 300 + i));
    src[i].first.fate = &f[2 * i];
    src[i].second.fate = &f[2 * i + 1];
  }
  const auto& csrc = src;
  bool moved = false;
  const int form = choice(8, "form");
  if (form >= 5) {
    s.n = 0;
    if (s.cap < (size_t)len) s.cap = len;
  }
  switch (form) {
    case 0: c->insert(src); break;
    case 1: c->insert(csrc); break;
    case 2: c->insert(src.begin(), src.end()); break;
    case 3: c->insert(std::move(src)); moved = true; break;
    case 4: c->insert(std::move(csrc)); break;
    case 5: *c = src; break;
    case 6: *c = csrc; break;
    case 7: *c = std::move(src); moved = true; break;
  }
  for (int i = 0; i < len; i++) {
    const bool fresh = s.cap > 0 && s.find(kv[i]) < 0;
    s.insert(kv[i], 100 + i, 200 + i, 300 + i);
    const Fate &a = f[2 * i], &b = f[2 * i + 1];
    if (!moved) {
      CHECK(a.moves == 0 && b.moves == 0, "an element of an lvalue range was moved from");
      CHECK(src[i].first.v == kv[i] && src[i].first.tag == 100 + i && src[i].second.v == 200 + i && src[i].second.tag == 300 + i, "an element of an lvalue range was modified");
    } else {
      CHECK(a.copies == 0 && b.copies == 0, "an element of an rvalue range was copied");
      if (fresh) CHECK(a.moves == 1, "a key of an rvalue range was not moved from");
      if (s.cap > 0) CHECK(b.moves == 1, "a value of an rvalue range was not moved from");
    }
  }
  agrees(static_cast<const C&>(*c), s);
  reach("end");
}
// any capacity, up to 1 (2) entries, ranges of 2 elements
ENTRY(ranges_u) { ranges<UC>(2, TIER(2, 3)); }
ENTRY(ranges_timed) { ranges<TC>(1, 2); }

// ---------------------------------------------------------------- construction from ranges
template <class C, class... A>
static C* construct(A&&... a) {
  if constexpr (std::is_same<C, TC>::value) return new C(NS(100000), std::forward<A>(a)...);
  else return new C(std::forward<A>(a)...);
}
template <class C>
static void constructors() {
  std::vector<std::pair<K, V>> src;
  src.reserve(2);
  Fate f[4];
  int kv[2];
  for (int i = 0; i < 2; i++) {
    kv[i] = sym_int("key");
    src.emplace_back(K(kv[i], 100 + i), V(200 + i, 300 + i));
    src[i].first.fate = &f[2 * i];
    src[i].second.fate = &f[2 * i + 1];
  }
  const auto& csrc = src;
  Shadow s;
  const size_t cap = sym_size("capacity");
  C* p = nullptr;
  bool moved = false;
  switch (choice(8, "form")) {
    case 0: p = construct<C>(src); break;
    case 1: p = construct<C>(csrc); break;
    case 2: p = construct<C>(cap, src); break;
    case 3: p = construct<C>(cap, csrc); break;
    case 4: p = construct<C>(std::move(src)); moved = true; break;
    case 5: p = construct<C>(cap, std::move(src)); moved = true; break;
    case 6: p = construct<C>(src.begin(), src.end()); break;
    case 7: p = construct<C>(cap, src.begin(), src.end()); break;
  }
  std::unique_ptr<C> c(p);
  s.cap = c->capacity();
  for (int i = 0; i < 2; i++) {
    const bool fresh = s.cap > 0 && s.find(kv[i]) < 0;
    s.insert(kv[i], 100 + i, 200 + i, 300 + i);
    if (!moved) CHECK(f[2 * i].moves == 0 && f[2 * i + 1].moves == 0 && src[i].first.v == kv[i], "an element of an lvalue range was moved from");
    else {
      CHECK(f[2 * i].copies == 0 && f[2 * i + 1].copies == 0, "an element of an rvalue range was copied");
      if (fresh) CHECK(f[2 * i].moves == 1, "a key of an rvalue range was not moved from");
    }
  }
  agrees(static_cast<const C&>(*c), s);
  reach("end");
}
// any capacity, two elements
ENTRY(constructors_u) { constructors<UC>(); }
ENTRY(constructors_timed) { constructors<TC>(); }

// ---------------------------------------------------------------- lookups leave keys alone
template <class C>
static void lookups(int n, int steps) {
  Shadow s;
  s.cap = sym_size("capacity");
  std::unique_ptr<C> c(make<C>(s.cap));
  fill(*c, s, n);
  const C& cc = *c;
  for (int i = 0; i < steps; i++) {
    const int kv = sym_int("key");
    K k(kv, 100);
    Fate f;
    k.fate = &f;
    const int form = choice(6, "form");
    const int at = s.find(kv);
    if (form < 5) s.touch(kv);
    switch (form) {
      case 0: { auto it = c->find(k); if (it != c->end()) CHECK(it->first.tag == s.kt[s.find(kv)], "find returns another key object"); break; }
      case 1: { auto it = cc.find(k); if (it != cc.end()) CHECK(it.key().tag == s.kt[s.find(kv)], "find returns another key object"); break; }
      case 2: c->contains(k); break;
      case 3: if (at >= 0) { V& v = c->lookup(k); CHECK(v.v == s.v[s.n - 1], "lookup returns another value"); v.tag = 77; s.vt[s.n - 1] = 77; } break;
      case 4: if (at >= 0) CHECK(cc[k].v == s.v[s.n - 1], "lookup returns another value"); break;
      case 5: c->erase(k); if (at >= 0) s.remove(at); break;
    }
    intact(k, kv, 100, f, "a lookup or erasure modified its argument");
  }
  agrees(cc, s);
  if constexpr (std::is_same<C, UC>::value)
    if (s.n > 0) CHECK(cc.front().tag == s.kt[s.n - 1] && cc.back().tag == s.kt[0], "front or back returns another key object");
  reach("end");
}
// any capacity, up to 2 entries, 1 (2) lookups or erasures with equal but distinguishable keys
ENTRY(lookups_u) { lookups<UC>(2, TIER(2, 3)); }
ENTRY(lookups_timed) { lookups<TC>(TIER(1, 2), 2); }

// ---------------------------------------------------------------- arguments that are objects of the cache itself
template <class C>
static void own_objects(int n, int steps) {
  Shadow s;
  s.cap = sym_size("capacity");
  std::unique_ptr<C> c(make<C>(s.cap));
  fill(*c, s, n);
  ASSUME(s.n > 0);
  for (int step = 0; step < steps; step++) {
    const int i = choice(s.n, "value_of");
    const V* v;
    if (sym_bool("by_lookup")) {
      v = &c->lookup(K(s.k[i], 99));
      s.touch(s.k[i]);
    } else {
      auto it = c->ordered_begin();
      for (int j = 0; j < i; j++) ++it;
      v = &it->second;
    }
    const int vv = v->v, vt = v->tag;
    K other(0);
    const K* k = &other;
    int kv, kt;
    if (sym_bool("own_key")) {
      const int j = choice(s.n, "key_of");
      auto it = static_cast<const C&>(*c).ordered_begin();
      for (int l = 0; l < j; l++) ++it;
      k = &it->first;
    } else {
      other.v = sym_int("key");
      other.tag = 100 + step;
    }
    kv = k->v;
    kt = k->tag;
    bool r;
    const bool fresh = s.find(kv) < 0;
    int wt = vt;
    switch (choice(4, "form")) {
      case 0: r = c->insert(*k, *v).was_inserted(); break;
      case 1: r = c->emplace(*k, *v).was_inserted(); break;
      case 2: r = c->emplace(std::piecewise_construct, std::forward_as_tuple(*k), std::forward_as_tuple(*v)).was_inserted(); break;
      default: r = c->emplace(std::piecewise_construct, std::forward_as_tuple(*k, *k), std::forward_as_tuple(*v, *v)).was_inserted(); kt = kv; wt = vv; break;
    }
    CHECK(r == fresh, "was_inserted is wrong");
    s.insert(kv, kt, vv, wt);
  }
  agrees(static_cast<const C&>(*c), s);
  reach("end");
}
// any capacity, up to 2 (3) entries, 2 (timed 1) insertions or emplacements of the value of an entry, under a new or own key object, in 4 forms
ENTRY(own_objects_u) { own_objects<UC>(TIER(2, 3), 2); }
ENTRY(own_objects_timed) { own_objects<TC>(2, 1); }
