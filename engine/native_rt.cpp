// Native counterpart of the harness interface: replays one path given the values
// of its symbolic variables.  Exit status: 0 completed, 77 a check failed,
// 78 the values do not satisfy an assumption (the run diverged).
#include <bits/stdc++.h>
#include <unistd.h>

#include "rt_common.hpp"

static std::vector<uint64_t> values;
static size_t next_value;
static int64_t live;
static bool raw = false;

static void* alloc(size_t n) {
  ++__sym_allocs;
  if (__sym_fail_at > 0 && --__sym_fail_at == 0) throw std::bad_alloc();
  if (n > (1u << 22)) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  live++;
  return p;
}
static void dealloc(void* p) { if (p) { live--; free(p); } }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, size_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t) noexcept { dealloc(p); }

namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  int64_t t = __sym_now_ns;
  __sym_now_ns += __sym_tick_ns;
  return time_point(duration(t));
}
system_clock::time_point system_clock::now() noexcept { return time_point(chrono::duration_cast<duration>(nanoseconds(__sym_sys_ns))); }
}}}

static void say(const char* a, const char* b) {
  printf("%s %s\n", a, b);
  fflush(stdout);
}
extern "C" {
uint64_t __sym_var(uint32_t bits, const char*) {
  if (next_value >= values.size()) { say("DIVERGED", "more inputs read than recorded"); _exit(78); }
  uint64_t v = values[next_value++];
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint32_t __sym_choice(uint32_t n, const char*) {
  if (next_value >= values.size()) { say("DIVERGED", "more inputs read than recorded"); _exit(78); }
  uint64_t v = values[next_value++];
  if (v >= n) { say("DIVERGED", "choice out of range"); _exit(78); }
  return v;
}
void __sym_assume(bool c) { if (!c) { say("DIVERGED", "assumption"); _exit(78); } }
void __sym_assert(bool c, const char* m) { if (!c) { say("FAILED", m); _exit(77); } }
void __sym_fail(const char* m) { say("FAILED", m); _exit(77); }
void __sym_observe(uint64_t v) { printf("O %llu\n", (unsigned long long)v); }
void __sym_reach(const char*) {}
uint64_t __sym_live() { return live; }
uint64_t __sym_concrete(uint64_t v) { return v; }
static uint64_t blocks;
void __sanitizer_cov_trace_pc() { blocks++; }
uint64_t __sym_cost() { return blocks * 5; }
void __sym_leaks() {}
void __sym_exit() { say("DONE", ""); fflush(stdout); if (raw) exit(0); _exit(0); }
#define ENTRY(n) void n();
#include SYM_ENTRIES
#undef ENTRY
}
int main(int argc, char** argv) {
  // argv: entry, then the values
  std::string e = argv[1];
  for (int i = 2; i < argc; i++) values.push_back(strtoull(argv[i], nullptr, 10));
  live = 0;
  std::set_terminate([] { say("FAILED", "std::terminate called"); _exit(77); });
#define ENTRY(n) if (e == #n) { n(); say("DONE", ""); return 0; }
#include SYM_ENTRIES
  say("DIVERGED", "no such entry");
  return 78;
}
