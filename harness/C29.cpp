// C29: the guarantees hold for every key and value type.
#include "common.hpp"
#include <cstring>
#include <string>

// ---------------------------------------------------------------- types
enum class Color : uint8_t { a, b, c, d };
struct Point {  // no default constructor, explicit, with owned memory
  std::unique_ptr<int> x;
  int y;
  explicit Point(int v) : x(new int(v)), y(~v) {}
  Point(const Point& o) : x(new int(*o.x)), y(o.y) {}
  Point(Point&&) = default;
  Point& operator=(const Point& o) { x.reset(new int(*o.x)); y = o.y; return *this; }
  Point& operator=(Point&&) = default;
  bool operator==(const Point& o) const { return *x == *o.x && y == o.y; }
  bool operator!=(const Point& o) const { return !(*this == o); }
};
struct Big {  // many bytes, copied as a whole
  int v;
  char pad[60];
  bool operator==(const Big& o) const { return v == o.v; }
  bool operator!=(const Big& o) const { return v != o.v; }
};
struct Loose {  // compared by a part of its state
  int v, w;
  bool operator==(const Loose& o) const { return (v & 1) == (o.v & 1); }
  bool operator!=(const Loose& o) const { return !(*this == o); }
};
struct Padded {  // bytes that do not belong to its state
  char a;
  int v;
  bool operator==(const Padded& o) const { return a == o.a && v == o.v; }
  bool operator!=(const Padded& o) const { return !(*this == o); }
};
struct Base {
  virtual ~Base() = default;
  virtual int get() const = 0;
};
struct Derived : Base {
  int v;
  explicit Derived(int x) : v(x) {}
  int get() const override { return v; }
};
struct Tree {  // can be made of a list of itself
  int v;
  std::vector<Tree> sub;
  Tree(int x) : v(x) {}
  Tree(std::initializer_list<Tree> l) : v(-1), sub(l) {}
  Tree(const Tree&) = default;
  Tree(Tree&&) = default;
  Tree& operator=(const Tree&) = default;
  Tree& operator=(Tree&&) = default;
  bool operator==(const Tree& o) const { return v == o.v && sub.size() == o.sub.size(); }
  bool operator!=(const Tree& o) const { return !(*this == o); }
};
struct Greedy {  // can be made of anything, and remembers it
  int v = 0, from = 0;
  template <class T, class = typename std::enable_if<!std::is_same<typename std::decay<T>::type, Greedy>::value>::type>
  Greedy(T&&) : from(1) {}
  Greedy(int x) : v(x) {}
  Greedy(const Greedy&) = default;
  Greedy& operator=(const Greedy&) = default;
  template <class T> Greedy& operator=(const T&) { from = 2; return *this; }
  bool operator==(const Greedy& o) const { return v == o.v && from == o.from; }
  bool operator!=(const Greedy& o) const { return !(*this == o); }
};
struct Secret {  // commas have a meaning
  int v;
  explicit Secret(int x) : v(x) {}
  template <class T> Secret operator,(const T&) const { return Secret(-5); }
  bool operator==(const Secret& o) const { return v == o.v; }
  bool operator!=(const Secret& o) const { return v != o.v; }
};
struct Late {  // differs only at its end
  char pad[60];
  int v;
  bool operator==(const Late& o) const { return v == o.v; }
  bool operator!=(const Late& o) const { return v != o.v; }
};
struct Noisy {  // no two objects have the same bytes
  int noise;
  short v[2];
  int more;
  bool operator==(const Noisy& o) const { return v[0] == o.v[0] && v[1] == o.v[1]; }
  bool operator!=(const Noisy& o) const { return !(*this == o); }
};
struct Text {  // long strings that differ only at their end
  std::string s;
  bool operator==(const Text& o) const { return s == o.s; }
  bool operator!=(const Text& o) const { return s != o.s; }
};
struct alignas(64) Aligned {
  int v;
  explicit Aligned(int x) : v(x) { check(); }
  Aligned(const Aligned& o) : v(o.v) { check(); }
  Aligned& operator=(const Aligned& o) { v = o.v; check(); return *this; }
  void check() const { CHECK((reinterpret_cast<uintptr_t>(this) & 63) == 0, "an object is not aligned"); }
  bool operator==(const Aligned& o) const { return v == o.v; }
  bool operator!=(const Aligned& o) const { return v != o.v; }
};
namespace std {
template <> struct hash<Point> { size_t operator()(const Point& p) const { return *p.x & 3; } };
template <> struct hash<Secret> { size_t operator()(const Secret&) const { return 9; } };
template <> struct hash<Aligned> { size_t operator()(const Aligned& a) const { return a.v & 1; } };
template <> struct hash<Late> { size_t operator()(const Late& l) const { return l.v & 1; } };
template <> struct hash<Noisy> { size_t operator()(const Noisy& n) const { return n.v[1] & 1; } };
template <> struct hash<Text> { size_t operator()(const Text& t) const { return hash<std::string>()(t.s); } };
template <> struct hash<Big> { size_t operator()(const Big&) const { return 7; } };
template <> struct hash<std::pair<int, char>> { size_t operator()(const std::pair<int, char>& p) const { return p.first & 1; } };
}
static int cells[8];
struct HAny { template <class T> size_t operator()(const T&) const { return 3; } };

// How a number is represented in a type: n distinct keys (0: any 32-bit number).
template <class T> struct Rep {
  static T make(int i) { return T(i); }
  static int back(const T& t) { return (int)t; }
  static constexpr int N = 0;
};
template <> struct Rep<size_t> {
  static size_t make(int i) { return (size_t)i << 32 | 5; }
  static int back(size_t t) { CHECK((t & 0xffffffff) == 5, "a 64-bit object changed"); return (int)(t >> 32); }
  static constexpr int N = 0;
};
template <> struct Rep<bool> {
  static bool make(int i) { return i & 1; }
  static int back(bool t) { return t; }
  static constexpr int N = 2;
};
template <> struct Rep<char> {
  static char make(int i) { return (char)i; }
  static int back(char t) { return (unsigned char)t; }
  static constexpr int N = -8;
};
template <> struct Rep<Color> {
  static Color make(int i) { return Color(i & 3); }
  static int back(Color t) { return (int)t; }
  static constexpr int N = -2;
};
template <> struct Rep<int*> {
  static int* make(int i) { return cells + i; }
  static int back(int* t) { return (int)(t - cells); }
  static constexpr int N = 4;
};
template <> struct Rep<Point> {
  static Point make(int i) { return Point(i); }
  static int back(const Point& p) { CHECK(p.x && p.y == ~*p.x, "an object lost part of its state"); return *p.x; }
  static constexpr int N = 0;
};
template <> struct Rep<Big> {
  static Big make(int i) { Big b{}; b.v = i; b.pad[59] = 9; return b; }
  static int back(const Big& p) { CHECK(p.pad[59] == 9, "an object lost part of its state"); return p.v; }
  static constexpr int N = 0;
};
template <> struct Rep<Late> {
  static Late make(int i) { Late l{}; l.v = i; l.pad[0] = 8; return l; }
  static int back(const Late& l) { CHECK(l.pad[0] == 8, "an object lost part of its state"); return l.v; }
  static constexpr int N = 0;
};
template <> struct Rep<Noisy> {
  static Noisy make(int i) {
    static int n = 0;
    n += 0x01010101;
    return Noisy{n, {(short)i, (short)((unsigned)i >> 16)}, ~n};
  }
  static int back(const Noisy& t) { CHECK(t.more == ~t.noise, "an object lost part of its state"); return (int)((unsigned)(unsigned short)t.v[1] << 16 | (unsigned short)t.v[0]); }
  static constexpr int N = 0;
};
template <> struct Rep<Text> {
  static Text make(int i) { return Text{std::string(100, 'x') + (char)('a' + i)}; }
  static int back(const Text& t) { CHECK(t.s.size() == 101 && t.s[50] == 'x', "a string changed"); return t.s[100] - 'a'; }
  static constexpr int N = 4;
};
template <> struct Rep<Loose> {
  static Loose make(int i) { return Loose{i, ~i}; }
  static int back(const Loose& p) { CHECK(p.w == ~p.v, "an object lost part of its state"); return p.v; }
  static constexpr int N = 0;
};
template <> struct Rep<Padded> {
  static Padded make(int i) {
    static int n = 0;
    Padded p;
    std::memset(static_cast<void*>(&p), ++n & 0x7f, sizeof p);
    p.a = 'a';
    p.v = i;
    return p;
  }
  static int back(const Padded& p) { CHECK(p.a == 'a', "an object lost part of its state"); return p.v; }
  static constexpr int N = 0;
};
template <> struct Rep<double> {  // two of them are equal
  static double make(int i) { static const double d[] = {0.0, -0.0, 1e-300, 1.0 / 3}; return d[i]; }
  static int back(double d) { return d == 0 ? (__builtin_signbit(d) ? 1 : 0) : d == 1e-300 ? 2 : d == 1.0 / 3 ? 3 : -1; }
  static constexpr int N = 4;
};
template <> struct Rep<std::string> {  // short strings and strings in memory of their own
  static std::string make(int i) { return i & 1 ? std::string(20, (char)i) : std::string(1, (char)i); }
  static int back(const std::string& s) { CHECK(!s.empty() && s.size() == (s[0] & 1 ? 20u : 1u) && s.back() == s[0], "a string changed"); return (unsigned char)s[0]; }
  static constexpr int N = 4;
};
template <> struct Rep<std::pair<int, char>> {
  static std::pair<int, char> make(int i) { return {i, (char)(i & 7)}; }
  static int back(const std::pair<int, char>& p) { CHECK(p.second == (p.first & 7), "a pair changed"); return p.first; }
  static constexpr int N = 0;
};
template <> struct Rep<std::tuple<int, bool>> {
  static std::tuple<int, bool> make(int i) { return std::tuple<int, bool>(i, i > 3); }
  static int back(const std::tuple<int, bool>& p) { CHECK(std::get<1>(p) == (std::get<0>(p) > 3), "a tuple changed"); return std::get<0>(p); }
  static constexpr int N = -2;
};
template <> struct Rep<std::vector<int>> {
  static std::vector<int> make(int i) { return {i, 1, i}; }
  static int back(const std::vector<int>& v) { CHECK(v.size() == 3 && v[0] == v[2], "a vector changed"); return v[0]; }
  static constexpr int N = 0;
};
template <> struct Rep<std::shared_ptr<Base>> {
  static std::shared_ptr<Base> make(int i) { return std::make_shared<Derived>(i); }
  static int back(const std::shared_ptr<Base>& p) { CHECK(!!p, "a pointer was lost"); return p->get(); }
  static constexpr int N = 0;
};
template <> struct Rep<LRU::Cache<int, int, HConst>> {
  using C = LRU::Cache<int, int, HConst>;
  static C make(int i) { C c(3); c.insert(1, i); c.insert(2, 4); return c; }
  static int back(const C& c) { CHECK(c.size() == 2 && c.ordered_cbegin()->first == 1, "a cache changed"); return c.ordered_cbegin()->second; }
  static constexpr int N = 0;
};
template <> struct Rep<Tree> {
  static Tree make(int i) { return Tree(i); }
  static int back(const Tree& t) { CHECK(t.sub.empty(), "a value was wrapped in a list"); return t.v; }
  static constexpr int N = 0;
};
template <> struct Rep<Greedy> {
  static Greedy make(int i) { return Greedy(i); }
  static int back(const Greedy& t) { CHECK(t.from == 0, "an object was made of something else"); return t.v; }
  static constexpr int N = 0;
};
template <> struct Rep<Secret> {
  static Secret make(int i) { return Secret(i); }
  static int back(const Secret& t) { return t.v; }
  static constexpr int N = 0;
};
template <> struct Rep<Aligned> {
  static Aligned make(int i) { return Aligned(i); }
  static int back(const Aligned& t) { return t.v; }
  static constexpr int N = 0;
};
template <class T>
static int any(const char* name) {
  constexpr int N = Rep<T>::N;
  if (N == 0) return sym_int(name);
  if (N < 0) return (int)__sym_var(-N, name);
  return choice(N, name);
}

// ---------------------------------------------------------------- histories
template <class C, class K, class V>
struct Typed {
  C c;
  Model m;
  template <class... A>
  explicit Typed(size_t cap, A&&... a) : c(std::forward<A>(a)..., cap) { m.cap = cap; }
  void found(bool f, int i) { CHECK(f == (i >= 0), f ? "a key is found that is not there" : "a key is missed that is there"); }
  template <class It>
  void at(It it, int i) {
    CHECK(Rep<K>::back(it->first) == m.e[i].key && Rep<K>::back(it.key()) == m.e[i].key, "an iterator points at another key");
    CHECK(Rep<V>::back(it->second) == m.e[i].val && Rep<V>::back((*it).value()) == m.e[i].val, "an iterator points at another value");
  }
  void insert(int how, int k, int v) {
    const bool fresh = m.insert(k, v);
    const K key = Rep<K>::make(k);
    const V val = Rep<V>::make(v);
    auto r = how == 0 ? c.insert(key, val) : how == 1 ? c.emplace(key, val) : c.emplace(Rep<K>::make(k), Rep<V>::make(v));
    CHECK(r.was_inserted() == fresh, "was_inserted is wrong");
    if (m.cap) at(r.iterator(), m.n - 1);
    else CHECK(r.iterator() == c.end(), "an insertion into a cache of capacity 0 returns an iterator to something");
    CHECK(Rep<K>::back(key) == k && Rep<V>::back(val) == v, "an insertion modifies its arguments");
  }
  void step() {
    const int op = choice(TIER(9, 11), "operation");
    const C& cc = c;
    const int k = any<K>("key");
    const K key = Rep<K>::make(k);
    switch (op) {
      case 0: case 1: case 2: insert(op, k, any<V>("value")); break;
      case 3: found(cc.contains(key), m.lookup(k)); break;
      case 4: {
        const int i = m.lookup(k);
        auto it = c.find(key);
        found(it != c.end(), i);
        if (i >= 0) at(it, i);
        break;
      }
      case 5: {
        const int i = m.lookup(k);
        bool thrown = false;
        int v = 0;
        try { v = Rep<V>::back(cc.lookup(key)); } catch (const LRU::Error::KeyNotFound&) { thrown = true; }
        found(!thrown, i);
        if (i >= 0) CHECK(v == m.e[i].val, "a lookup returns another value");
        break;
      }
      case 6: CHECK(c.erase(key) == m.erase(k), "erase returns the wrong flag"); break;
      case 7: {
        const int i = m.lookup(k);
        if (i < 0) ASSUME(false);
        const int v = any<V>("value");
        c[key] = Rep<V>::make(v);
        m.e[i].val = v;
        break;
      }
      case 8: {
        const C d(c);
        CHECK(d == cc && !(d != cc), "a copy differs");
        C e(d);
        if (m.n) {  // another value for the oldest entry
          const V old = e.ordered_cbegin()->second;
          const V now = Rep<V>::make(any<V>("another value"));
          e.ordered_begin()->second = now;
          const bool differ = old != now;
          CHECK((e != cc) == differ && (e == cc) == !differ && (cc == e) == !differ, "caches compare by something else than the values");
        }
        e.clear();
        e = d;
        e.insert(key, Rep<V>::make(3));
        C f(std::move(e));
        if (m.cap) CHECK(f.contains(key), "an inserted key is missed in a moved copy");
        break;
      }
      case 9: {
        std::vector<std::pair<K, V>> v;
        v.emplace_back(key, Rep<V>::make(1));
        m.insert(k, 1);
        if (sym_bool("rvalue")) c.insert(std::move(v));
        else { c.insert(v); CHECK(Rep<K>::back(v[0].first) == k && Rep<V>::back(v[0].second) == 1, "inserting a range modifies it"); }
        break;
      }
      case 10: { const size_t q = choice(3, "capacity"); c.capacity(q); m.limit(q); m.cap = q; break; }
    }
  }
  void verify() {
    const C& cc = c;
    CHECK(cc.size() == (size_t)m.n && cc.capacity() == m.cap, "size or capacity is wrong");
    int i = 0;
    for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it) {
      CHECK(i < m.n, "too many entries");
      at(it, i++);
    }
    CHECK(i == m.n, "entries are missing");
    for (auto it = c.begin(); it != c.end(); ++it) {
      const int j = m.find(Rep<K>::back(it->first));
      CHECK(j >= 0 && Rep<V>::back(it->second) == m.e[j].val, "iteration visits an entry that is not there");
      i--;
    }
    CHECK(i == 0, "unordered iteration does not visit every entry");
  }
};
template <class K, class V, class H = HAny>
static void untimed(int steps) {
  using C = LRU::Cache<K, V, H>;
  Typed<C, K, V> t(choice(3, "capacity"));
  for (int i = 0; i < 2; i++) { const int k = any<K>("key"); t.insert(0, k, any<V>("value")); }
  if (sym_bool("monitored")) {
    t.c.monitor();
    t.c.hit_callback([](const K& k, const V& v) { obs(Rep<K>::back(k)); obs(Rep<V>::back(v)); });
  }
  for (int i = 0; i < steps; i++) t.step();
  t.verify();
  reach("end");
}
template <class K, class V, class H = HAny>
static void timed(int steps) {
  using C = LRU::TimedCache<K, V, NS, H>;
  Typed<C, K, V> t(choice(3, "capacity"), NS(1ll << 40));
  for (int i = 0; i < 2; i++) { const int k = any<K>("key"); t.insert(0, k, any<V>("value")); }
  for (int i = 0; i < steps; i++) t.step();
  t.verify();
  CHECK(!t.c.all_expired() || t.m.n == 0, "entries have expired");
  __sym_now_ns += (1ll << 40) + 1;
  const size_t n = t.c.clear_expired();
  CHECK(n == (size_t)t.m.n && t.c.is_empty(), "clear_expired does not remove every expired entry");
  reach("end");
}
// capacity 0 to 2, 2 insertions, 2 (3) operations (1 for pointers and strings), on caches over: 64-bit numbers
ENTRY(words) { untimed<size_t, size_t>(TIER(2, 3)); timed<size_t, size_t>(0); }
ENTRY(words_timed) { timed<size_t, size_t>(TIER(2, 3)); }
// keys and values of one bit or byte
ENTRY(bools) { untimed<bool, bool, std::hash<bool>>(2); }
ENTRY(chars) { untimed<char, char>(TIER(2, 3)); }
// enumerations
ENTRY(enums) { untimed<Color, Color>(TIER(2, 3)); }
// pointers to 4 objects
ENTRY(pointers) { untimed<int*, int*>(1); }
// pairs and tuples as keys and values
ENTRY(pairs) { untimed<std::pair<int, char>, std::pair<int, char>, std::hash<std::pair<int, char>>>(TIER(2, 3)); }
ENTRY(tuples) { untimed<std::tuple<int, bool>, std::tuple<int, bool>>(TIER(2, 3)); }
// types that own memory and have no default constructor
ENTRY(owning) { untimed<Point, Point>(TIER(2, 3)); }
ENTRY(owning_timed) { timed<Point, Point>(TIER(2, 3)); }
// large trivially copyable types
ENTRY(large) { untimed<Big, Big>(TIER(2, 3)); }
// strings, short and long, 4 different ones
ENTRY(strings) { untimed<std::string, std::string, std::hash<std::string>>(1); }
ENTRY(strings_timed) { timed<std::string, std::string, std::hash<std::string>>(1); }
// values of which different ones compare equal
ENTRY(loose) { untimed<int, Loose>(TIER(2, 3)); }
ENTRY(loose_timed) { timed<int, Loose>(TIER(2, 3)); }
ENTRY(doubles) { untimed<int, double>(1); }
// with padding
ENTRY(padded) { untimed<int, Padded>(TIER(2, 3)); }
// containers, shared pointers and caches as values
ENTRY(vectors) { untimed<int, std::vector<int>>(TIER(2, 3)); }
ENTRY(shared) { untimed<int, std::shared_ptr<Base>>(TIER(2, 3)); }
ENTRY(nested) { untimed<int, LRU::Cache<int, int, HConst>>(1); }
ENTRY(nested_timed) { timed<int, LRU::Cache<int, int, HConst>>(1); }
// a value that can be made of a list of values, of anything, or has a comma operator of its own; over-aligned values
ENTRY(trees) { untimed<int, Tree>(TIER(2, 3)); }
ENTRY(trees_timed) { timed<int, Tree>(TIER(2, 3)); }
ENTRY(greedy) { untimed<int, Greedy>(TIER(2, 3)); }
ENTRY(greedy_timed) { timed<int, Greedy>(TIER(2, 3)); }
ENTRY(secret) { untimed<Secret, Secret>(TIER(2, 3)); }
ENTRY(secret_timed) { timed<Secret, Secret>(TIER(2, 3)); }
ENTRY(aligned) { untimed<Aligned, Aligned>(TIER(2, 3)); }
// large types that differ at the end, types with bytes that do not count, long strings that differ at the end
ENTRY(late) { untimed<Late, Late>(TIER(2, 3)); }
ENTRY(late_timed) { timed<Late, Late>(TIER(2, 3)); }
ENTRY(noisy) { untimed<Noisy, Noisy>(TIER(2, 3)); }
ENTRY(noisy_timed) { timed<Noisy, Noisy>(TIER(2, 3)); }
ENTRY(texts) { untimed<Text, Text>(1); }
ENTRY(texts_timed) { timed<Text, Text>(1); }
