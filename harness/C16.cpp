#define MODEL_MAX 200
#include "long.hpp"

// A pure function of its arguments whose calls are counted.  Results are distinct
// for distinct arguments.
struct Arg { int a, b; };
static Arg called[16];
static int ncalls;
static uint64_t f(int a, int b) {
  if (ncalls < 16) called[ncalls] = Arg{a, b};
  ncalls++;
  return (uint64_t)(uint32_t)a << 32 | (uint32_t)b;
}
// Argument types whose standard hash has 0 or 1 bits (the hash of a tuple of ints is
// arithmetic that the solver is slow at; `ints` has those).
template <int Bits>
struct Num {
  int v;
  Num(int x) : v(x) {}
  operator int() const { return v; }
  friend bool operator==(const Num& x, const Num& y) { return x.v == y.v; }
};
namespace std {
template <int Bits>
struct hash<Num<Bits>> {
  size_t operator()(const Num<Bits>& n) const { return (unsigned)n.v & ((1u << Bits) - 1); }
};
}
using N = Num<0>;
static uint64_t fn(N a, N b) { return f(a, b); }
static uint64_t fb(Num<1> a, Num<1> b) { return f(a, b); }
static uint64_t g(N a, N b) { return f(a, b) ^ 0x8000000000000000ull; }
static int h1(int a) {
  ncalls++;
  return a + 1;
}

// The model: the arguments cached, least recently used first.
struct Args {
  static constexpr int MAX = 200;
  size_t cap = 128;
  bool timed = false;
  int64_t ttl = 0;
  int n = 0;
  Arg e[MAX];
  int64_t t[MAX];
  // Uses the arguments; true if the function has to be called.
  bool call(int a, int b) {
    int i = 0;
    while (i < n && !(e[i].a == a && e[i].b == b)) i++;
    bool found = i < n;
    if (found && !(timed && __sym_now_ns - t[i] > ttl)) {
      Arg x = e[i];
      int64_t y = t[i];
      for (; i + 1 < n; i++) { e[i] = e[i + 1]; t[i] = t[i + 1]; }
      e[n - 1] = x;
      t[n - 1] = y;
      return false;
    }
    if (cap == 0) return true;
    if (found) {
      for (; i + 1 < n; i++) { e[i] = e[i + 1]; t[i] = t[i + 1]; }
      n--;
    }
    e[n] = Arg{a, b};
    t[n] = __sym_now_ns;
    n++;
    if ((size_t)n > cap) {
      for (int j = 0; j + 1 < n; j++) { e[j] = e[j + 1]; t[j] = t[j + 1]; }
      n--;
    }
    return true;
  }
};
template <class A = N, class W>
static void one_call(W& w, Args& m, uint64_t flip) {
  A a = sym_int("argument"), b = sym_int("argument");
  int before = ncalls;
  bool needed = m.call(a, b);
  uint64_t r;
  switch (choice(2, "category")) {
    case 0: r = w(a, b); break;
    default: { const A ca = a; r = w(ca, A(b)); break; }
  }
  obs(r);
  CHECK(r == (((uint64_t)(uint32_t)(int)a << 32 | (uint32_t)(int)b) ^ flip), "a wrapped function returns something else than the function");
  obs(ncalls - before);
  CHECK(ncalls - before == (needed ? 1 : 0), needed ? "a wrapped function was not called for arguments that are not cached" : "a wrapped function was called for cached arguments");
  if (needed) CHECK(before >= 16 || (called[before].a == (int)a && called[before].b == (int)b), "the function was called with other arguments");
}
template <class A = N, class W>
static void calls(W& w, Args& m, int n, uint64_t flip = 0) {
  for (int i = 0; i < n; i++) one_call<A>(w, m, flip);
}
// capacity 0 to 3, 4 calls with arbitrary arguments (lvalues, const lvalues, rvalues)
ENTRY(capacities) {
  ncalls = 0;
  size_t cap = choice(4, "capacity");
  auto w = LRU::wrap(fn, cap);
  Args m;
  m.cap = cap;
  calls(w, m, 4);
  reach("end");
}
// arguments with two hash values each, capacity 0 to 3, 3 (4) calls
ENTRY(bits) {
  ncalls = 0;
  size_t cap = choice(4, "capacity");
  auto w = LRU::wrap(fb, cap);
  Args m;
  m.cap = cap;
  calls<Num<1>>(w, m, TIER(3, 4));
  reach("end");
}
// plain int arguments, capacity 0 to 2, 2 (3) calls
ENTRY(ints) {
  ncalls = 0;
  size_t cap = choice(3, "capacity");
  auto w = LRU::wrap(f, cap);
  Args m;
  m.cap = cap;
  calls<int>(w, m, TIER(2, 3));
  reach("end");
}
// any capacity at all
ENTRY(any_capacity) {
  ncalls = 0;
  size_t cap = sym_size("capacity");
  auto w = LRU::wrap(fn, cap);
  Args m;
  m.cap = cap;
  calls(w, m, 3);
  reach("end");
}
// no cache arguments: the default capacity
ENTRY(default_capacity) {
  ncalls = 0;
  auto w = LRU::wrap(fn);
  Args m;
  calls(w, m, 3);
  reach("end");
}
// two functions of the same type wrapped with capacities 0 to 2, calls interleaved
ENTRY(two_functions) {
  ncalls = 0;
  size_t c1 = choice(3, "capacity"), c2 = choice(3, "capacity");
  auto w1 = LRU::wrap(fn, c1);
  auto w2 = LRU::wrap(g, c2);
  Args m1, m2;
  m1.cap = c1;
  m2.cap = c2;
  for (int i = 0; i < 3; i++) {
    if (sym_bool("second")) one_call(w2, m2, 0x8000000000000000ull);
    else one_call(w1, m1, 0);
  }
  reach("end");
}
// the same lambda type created twice with different captures
template <class F>
static auto wrap_same(F x, size_t cap) { return LRU::wrap(x, cap); }
ENTRY(same_lambda) {
  ncalls = 0;
  auto make = [](uint64_t flip) { return [flip](N a, N b) { return f(a, b) ^ flip; }; };
  auto w1 = wrap_same(make(0), 2);
  auto w2 = wrap_same(make(1ull << 63), 1);
  Args m1, m2;
  m1.cap = 2;
  m2.cap = 1;
  for (int i = 0; i < 3; i++) {
    if (sym_bool("second")) one_call(w2, m2, 1ull << 63);
    else one_call(w1, m1, 0);
  }
  reach("end");
}
// wrapping the same function again starts with an empty cache; the first one keeps its own
ENTRY(again) {
  ncalls = 0;
  Args m1, m2;
  m1.cap = 2;
  m2.cap = 1;
  auto w1 = LRU::wrap(fn, 2);
  calls(w1, m1, 1);
  auto w2 = LRU::wrap(fn, 1);
  calls(w2, m2, 1);
  if (sym_bool("second")) calls(w2, m2, 1);
  calls(w1, m1, 1);
  reach("end");
}
// a wrapped function moved or copied keeps returning what the function returns
ENTRY(moved) {
  ncalls = 0;
  Args m;
  m.cap = 2;
  auto w = LRU::wrap(fn, 2);
  calls(w, m, 1);
  auto v = std::move(w);
  calls(v, m, 2);
  std::function<uint64_t(N, N)> fun = std::move(v);
  N a = sym_int("argument"), b = sym_int("argument");
  uint64_t r = fun(a, b);
  CHECK(r == ((uint64_t)(uint32_t)(int)a << 32 | (uint32_t)(int)b), "a wrapped function returns something else than the function");
  reach("end");
}
// other signatures: one argument, mixed types, references, no argument
ENTRY(signatures) {
  ncalls = 0;
  auto w1 = LRU::wrap(h1, 2);
  int a = sym_int("argument"), b = sym_int("argument");
  CHECK(w1(a) == (int)((unsigned)a + 1u), "a wrapped function returns something else than the function");
  CHECK(ncalls == 1, "the function was not called once");
  CHECK(w1(b) == (int)((unsigned)b + 1u), "a wrapped function returns something else than the function");
  CHECK(ncalls == (a == b ? 1 : 2), "the function was called the wrong number of times");
  static int k;
  k = 0;
  auto w2 = LRU::wrap([](char c, int i, unsigned long l) { k++; return (unsigned long)c * 3 + i + l; }, 4);
  char c = 'x';
  unsigned long l = 77;
  CHECK(w2(c, a, l) == (unsigned long)c * 3 + a + l, "a wrapped function returns something else than the function");
  CHECK(w2(c, b, l) == (unsigned long)c * 3 + b + l, "a wrapped function returns something else than the function");
  CHECK(k == (a == b ? 1 : 2), "the function was called the wrong number of times");
  static int z;
  z = 0;
  auto w3 = LRU::wrap([] { return ++z; });
  CHECK(w3() == 1 && w3() == 1 && z == 1, "a function without arguments is not cached");
  reach("end");
}
// An argument that shows when it has been moved from.
struct Mov {
  int v;
  Mov(int x) : v(x) {}
  Mov(const Mov&) = default;
  Mov& operator=(const Mov&) = default;
  Mov(Mov&& o) noexcept : v(o.v) { o.v = -1; }
  Mov& operator=(Mov&& o) noexcept {
    v = o.v;
    if (this != &o) o.v = -1;
    return *this;
  }
  friend bool operator==(const Mov& x, const Mov& y) { return x.v == y.v; }
  friend bool operator!=(const Mov& x, const Mov& y) { return x.v != y.v; }
};
namespace std {
template <>
struct hash<Mov> {
  size_t operator()(const Mov&) const { return 3; }
};
}
static int by_value(Mov m, N n) {
  Mov taken(std::move(m));
  ncalls++;
  return (int)((unsigned)taken.v * 2u + (unsigned)n.v);
}
static int by_rvalue(Mov&& m) {
  Mov taken(std::move(m));
  ncalls++;
  return (int)((unsigned)taken.v + 5u);
}
static int by_reference(Mov& m) {
  ncalls++;
  return m.v;
}
static int by_const_reference(const Mov& m, const N&) {
  ncalls++;
  return m.v;
}
// the function takes its argument by value, as an rvalue or by reference and may move from it: rvalues and lvalues given, any two or three values
ENTRY(consumed) {
  ncalls = 0;
  int a = sym_int("argument"), b = sym_int("argument"), d = sym_int("argument");
  ASSUME(a != -1 && b != -1);
  auto want = [](int x) { return (int)((unsigned)x * 2u + 7u); };
  switch (choice(4, "signature")) {
    case 0: {
      auto w = LRU::wrap(by_value, 3);
      CHECK(w(Mov(a), N(7)) == want(a), "a wrapped function returns something else than the function");
      Mov l(b);
      CHECK(w(l, N(7)) == want(b), "a wrapped function returns something else than the function");
      CHECK(l.v == b, "an lvalue argument was moved from");
      CHECK(ncalls == (a == b ? 1 : 2), "the function was called the wrong number of times");
      CHECK(w(Mov(d), N(7)) == want(d), "a wrapped function returns something else than the function");
      CHECK(ncalls == 1 + (a != b) + (d != a && d != b), "the function was called the wrong number of times");
      break;
    }
    case 1: {
      auto w = LRU::wrap(by_rvalue, 3);
      CHECK(w(Mov(a)) == (int)((unsigned)a + 5u), "a wrapped function returns something else than the function");
      CHECK(w(Mov(b)) == (int)((unsigned)b + 5u), "a wrapped function returns something else than the function");
      CHECK(ncalls == (a == b ? 1 : 2), "the function was called the wrong number of times");
      CHECK(w(Mov(d)) == (int)((unsigned)d + 5u), "a wrapped function returns something else than the function");
      CHECK(ncalls == 1 + (a != b) + (d != a && d != b), "the function was called the wrong number of times");
      break;
    }
    case 2: {
      auto w = LRU::wrap(by_reference, 3);
      Mov x(a), y(b);
      CHECK(w(x) == a && w(y) == b && x.v == a && y.v == b, "a wrapped function returns something else than the function");
      CHECK(ncalls == (a == b ? 1 : 2), "the function was called the wrong number of times");
      break;
    }
    case 3: {
      auto w = LRU::wrap(by_const_reference, 3);
      const Mov x(a);
      Mov y(b);
      CHECK(w(x, 1) == a && w(y, 1) == b && x.v == a && y.v == b, "a wrapped function returns something else than the function");
      CHECK(w(Mov(d), 1) == d, "a wrapped function returns something else than the function");
      CHECK(ncalls == 1 + (a != b) + (d != a && d != b), "the function was called the wrong number of times");
      break;
    }
  }
  reach("end");
}
// `is` decides whether a result is that of the function for x.
template <class Fun, class Is>
static void three_results(Fun fun, Is is) {
  ncalls = 0;
  size_t cap = choice(3, "capacity");
  auto w = LRU::wrap(fun, cap);
  int x[3], known = 0;
  for (int i = 0; i < 3; i++) {
    x[i] = sym_int("argument");
    ASSUME(x[i] != -1);
    int before = ncalls;
    auto r = w(N(x[i]));
    CHECK(is(r, x[i]), "a wrapped function returns something else than the function");
    bool needed = true;
    for (int j = i - 1, others = 0; j >= 0 && others < (int)cap; j--) {
      if (x[j] == x[i]) { needed = false; break; }
      bool again = false;
      for (int k = j + 1; k < i; k++) again |= x[k] == x[j];
      others += !again;
    }
    CHECK(ncalls - before == (needed ? 1 : 0), "the function was called the wrong number of times");
    known++;
    // what the caller does with the result does not matter to later calls
    auto stolen = std::move(r);
    CHECK(is(stolen, x[i]), "a result cannot be moved");
    if (i < 2 && sym_bool("again")) {
      before = ncalls;
      auto r2 = w(N(x[i]));
      CHECK(is(r2, x[i]), "a wrapped function returns something else than the function");
      CHECK(ncalls - before == (cap == 0 ? 1 : 0), "the function was called the wrong number of times");
    }
  }
  obs(known);
}
static Mov gives_mov(N n) { ncalls++; return Mov(n.v); }
static std::string gives_string(N n) { ncalls++; return std::string(40, (char)('a' + (n.v & 7))); }
static std::vector<int> gives_vector(N n) { ncalls++; return std::vector<int>{n.v, 2, n.v}; }
static bool gives_bool(N n) { ncalls++; return n.v > 3; }
static const int* gives_pointer(N n) { ncalls++; static const int cells[2] = {0, 1}; return n.v & 1 ? &cells[1] : nullptr; }
static std::pair<Mov, std::shared_ptr<int>> gives_pair(N n) { ncalls++; return {Mov(n.v), std::make_shared<int>(n.v)}; }
// functions returning objects that can be moved from, strings, vectors, truth values, null pointers and shared objects: three arbitrary arguments, each result moved from by the caller, some calls made twice, capacity 0 to 2
ENTRY(results) {
  switch (choice(6, "function")) {
    case 0: three_results(gives_mov, [](const Mov& r, int x) { return r.v == x; }); break;
    case 1: three_results(gives_string, [](const std::string& r, int x) { return r.size() == 40 && r[0] == (char)('a' + (x & 7)) && r[39] == r[0]; }); break;
    case 2: three_results(gives_vector, [](const std::vector<int>& r, int x) { return r.size() == 3 && r[0] == x && r[1] == 2 && r[2] == x; }); break;
    case 3: three_results(gives_bool, [](bool r, int x) { return r == (x > 3); }); break;
    case 4: three_results(gives_pointer, [](const int* r, int x) { return x & 1 ? r && *r == 1 : r == nullptr; }); break;
    default: three_results(gives_pair, [](const std::pair<Mov, std::shared_ptr<int>>& r, int x) { return r.first.v == x && r.second && *r.second == x; }); break;
  }
  reach("end");
}
// argument types decide which cache is used, and never confuse the results
ENTRY(generic) {
  static int k;
  k = 0;
  auto w = LRU::wrap([](auto x) { k++; return (int)sizeof(x); }, 3);
  int a = sym_int("argument");
  char c = (char)__sym_var(8, "argument");
  CHECK(w(a) == 4 && w(c) == 1 && w((long)a) == 8, "a wrapped generic function returns something else than the function");
  CHECK(w(a) == 4 && w(c) == 1, "a wrapped generic function returns something else than the function");
  CHECK(k == 3, "a wrapped generic function was called the wrong number of times");
  reach("end");
}
// timed_wrap: time to live 1, 1.5 or 2 ms, calls at (concrete) times around them, capacity 1 or 2
ENTRY(timed) {
  ncalls = 0;
  static const int64_t ttls[] = {1000000, 1500000, 2000000};
  static const int64_t gaps[] = {0, 999999, 1000000, 1000001, 2000001};
  int64_t ttl = ttls[choice(3, "ttl")];
  size_t cap = 1 + (size_t)choice(2, "capacity");
  auto w = LRU::timed_wrap(fn, std::chrono::nanoseconds(ttl), cap);
  Args m;
  m.cap = cap;
  m.timed = true;
  m.ttl = ttl;
  for (int i = 0; i < TIER(3, 4); i++) {
    if (i) __sym_now_ns += gaps[choice(5, "elapsed")];
    one_call(w, m, 0);
  }
  reach("end");
}
// timed_wrap with the default capacity and a time to live in milliseconds; two of them
ENTRY(timed_default) {
  ncalls = 0;
  auto w = LRU::timed_wrap(fn, std::chrono::milliseconds(2));
  auto v = LRU::timed_wrap(fn, std::chrono::milliseconds(1));
  Args m, n;
  m.timed = n.timed = true;
  m.ttl = 2000000;
  n.ttl = 1000000;
  calls(w, m, 1);
  calls(v, n, 1);
  static const int64_t gaps[] = {999999, 1000000, 1000001, 2000000, 2000001};
  __sym_now_ns += gaps[choice(5, "elapsed")];
  calls(w, m, 1);
  calls(v, n, 1);
  reach("end");
}
// the function recurses through another wrapped function, and throws once
ENTRY(throwing) {
  static int k;
  static bool fail;
  k = 0;
  auto w = LRU::wrap([](int x) {
    k++;
    if (fail) throw 1;
    return x ^ 5;
  }, 2);
  int a = sym_int("argument"), b = sym_int("argument");
  fail = false;
  CHECK(w(a) == (a ^ 5), "a wrapped function returns something else than the function");
  fail = true;
  bool thrown = false;
  try { CHECK(w(b) == (b ^ 5), "a wrapped function returns something else than the function"); } catch (int) { thrown = true; }
  CHECK(thrown == (a != b), "the exception of a wrapped function is not passed on");
  fail = false;
  int before = k;
  if (sym_bool("first")) {
    CHECK(w(a) == (a ^ 5), "a wrapped function returns something else than the function");
    CHECK(k == before, "a failed call made a cached result disappear");
  }
  CHECK(w(b) == (b ^ 5), "a wrapped function returns something else than the function");
  CHECK(k - before == (a != b ? 1 : 0), "a failed call was cached");
  before = k;
  CHECK(w(a) == (a ^ 5), "a wrapped function returns something else than the function");
  CHECK(k == before, "a failed call made a cached result disappear");
  reach("end");
}
// a wrapped recursive function
ENTRY(recursive) {
  static std::function<uint32_t(uint32_t)> fib;
  static int k;
  k = 0;
  fib = [](uint32_t n) -> uint32_t {
    k++;
    return n < 2 ? n : fib(n - 1) + fib(n - 2);
  };
  fib = LRU::wrap(fib, 4);
  uint32_t n = choice(7, "n");
  static const uint32_t want[] = {0, 1, 1, 2, 3, 5, 8};
  uint32_t r = fib(n);
  obs(r);
  CHECK(r == want[n], "a wrapped recursive function returns something else");
  int before = k;
  CHECK(fib(n) == want[n] && k == before, "the result of a recursive function is not cached");
  fib = nullptr;
  reach("end");
}

// ---------------------------------------------------------------- long histories

static uint64_t f3(Num<3> a, Num<3> b) { return f(a, b); }
template <class W>
static void fixed_call(W& w, Args& m, int a, int b) {
  const int before = ncalls;
  const bool needed = m.call(a, b);
  const uint64_t r = w(Num<3>(a), Num<3>(b));
  CHECK(r == ((uint64_t)(uint32_t)a << 32 | (uint32_t)b), "a wrapped function returns something else than the function");
  CHECK(ncalls - before == (needed ? 1 : 0), needed ? "a wrapped function was not called for arguments that are not cached" : "a wrapped function was called for cached arguments");
}
template <class W>
static void many_calls(W&& w, Args& m, int side) {
  Sequence next = any_sequence();
  for (int i = 0; i < TIER(400, 1200); i++) {
    const int a = next(side), b = next(side);
    fixed_call(w, m, a, b);
  }
  const int b = next(side);
  fixed_call(w, m, sym_int("argument"), b);
  fixed_call(w, m, next(side), b);
  reach("end");
}
// capacity 20 or 150 (or 128, the default), 400 (1200) calls with fixed arguments, then one with an arbitrary argument and another fixed one
ENTRY(after_many) {
  ncalls = 0;
  Args m;
  switch (choice(3, "capacity")) {
    case 0: m.cap = 20; many_calls(LRU::wrap(f3, 20), m, 6); break;
    case 1: m.cap = 150; many_calls(LRU::wrap(f3, 150), m, 14); break;
    case 2: m.cap = 128; many_calls(LRU::wrap(f3), m, 14); break;
  }
}
// timed, capacity 20, a time to live of 50 to 200 ms, 400 (1200) calls with fixed arguments while time passes, then 1 call with an arbitrary argument after one of 10 times
ENTRY(after_many_timed) {
  ncalls = 0;
  Args m;
  Sequence next = any_sequence();
  m.cap = 20;
  m.timed = true;
  m.ttl = (50 + 50 * (int64_t)choice(4, "time to live")) * 1000000;
  auto w = LRU::timed_wrap(f3, NS(m.ttl), m.cap);
  for (int i = 0; i < TIER(400, 1200); i++) {
    __sym_now_ns += (int64_t)next(20) * 1000000;
    const int a = next(6), b = next(5);
    fixed_call(w, m, a, b);
  }
  __sym_now_ns += (int64_t)choice(10, "elapsed") * 21000000;
  fixed_call(w, m, sym_int("argument"), 3);
  reach("end");
}
// capacity 0 to 2, 40 times the same three arbitrary pairs of arguments
ENTRY(repeated) {
  ncalls = 0;
  Args m;
  m.cap = choice(3, "capacity");
  auto w = LRU::wrap(f3, m.cap);
  const int a = sym_int("argument"), b = sym_int("argument"), c = sym_int("argument");
  for (int i = 0; i < 40; i++) {
    fixed_call(w, m, a, 1);
    fixed_call(w, m, b, 1);
    fixed_call(w, m, c, 1);
  }
  reach("end");
}
