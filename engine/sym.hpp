// Interface between harnesses and the symbolic executor (or, natively, the
// replay runtime in native_rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __sym_var(uint32_t bits, const char* name);        // arbitrary value of that many bits
uint32_t __sym_choice(uint32_t n, const char* name);        // arbitrary value in [0, n)
void __sym_assume(bool c);
void __sym_assert(bool c, const char* msg);
void __sym_fail(const char* msg);
void __sym_observe(uint64_t v);                             // compared with the native run
void __sym_reach(const char* mark);                         // vacuity witness
void __sym_leaks();                                         // everything allocated is released or reachable
void __sym_exit();                                          // end this path
uint64_t __sym_live();                                      // number of live heap blocks
uint64_t __sym_cost();                                      // instructions (natively: basic blocks) executed so far
uint64_t __sym_concrete(uint64_t v);                        // fork over the values of v
extern int64_t __sym_now_ns;                                // the time steady_clock reports
extern int64_t __sym_tick_ns;                             // by how much every reading of it advances it
extern int64_t __sym_sys_ns;                                // the time system_clock reports
extern int64_t __sym_fail_at;                               // > 0: that allocation from now on fails
extern int64_t __sym_allocs;                                // allocations so far
extern uint32_t __sym_min_buckets;                          // first bucket count of a growing hash table
}
