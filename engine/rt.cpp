// Models of the parts of libstdc++/libc that are not in headers, for the
// symbolic executor.  Written from their documented behaviour; everything in
// headers (unordered_map, list, function, shared_ptr, tuple, string, ...) is the
// real code and is executed symbolically.
#include <bits/stdc++.h>

#include "rt_common.hpp"

extern "C" {
void* __sym_malloc(size_t n, uint32_t kind);
void __sym_free(void* p, uint32_t kind);
void __sym_unwind(void* exn, void* tinfo) __attribute__((noreturn));
void __sym_terminate(const char*) __attribute__((noreturn));
}
enum { KMALLOC = 2, KNEW = 3, KNEWARR = 4, KEXC = 5 };

template class std::basic_string<char>;  // libstdc++'s own templates, instantiated here

// ------------------------------------------------------------ allocation
static void* alloc(size_t n, uint32_t kind) {
  ++__sym_allocs;
  if (__sym_fail_at > 0 && --__sym_fail_at == 0) throw std::bad_alloc();
  void* p = __sym_malloc(n, kind);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return alloc(n, KNEW); }
void* operator new[](size_t n) { return alloc(n, KNEWARR); }
void* operator new(size_t n, std::align_val_t) { return alloc(n, KNEW); }
void* operator new[](size_t n, std::align_val_t) { return alloc(n, KNEWARR); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return alloc(n, KNEW); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return alloc(n, KNEWARR); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { __sym_free(p, KNEW); }
void operator delete[](void* p) noexcept { __sym_free(p, KNEWARR); }
void operator delete(void* p, size_t) noexcept { __sym_free(p, KNEW); }
void operator delete[](void* p, size_t) noexcept { __sym_free(p, KNEWARR); }
void operator delete(void* p, std::align_val_t) noexcept { __sym_free(p, KNEW); }
void operator delete[](void* p, std::align_val_t) noexcept { __sym_free(p, KNEWARR); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __sym_free(p, KNEW); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __sym_free(p, KNEWARR); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __sym_free(p, KNEW); }

extern "C" {
void* malloc(size_t n) noexcept { return __sym_malloc(n, KMALLOC); }
void* calloc(size_t a, size_t b) noexcept {
  char* p = (char*)__sym_malloc(a * b, KMALLOC);
  for (size_t i = 0; i < a * b; i++) p[i] = 0;
  return p;
}
void free(void* p) noexcept { if (p) __sym_free(p, KMALLOC); }
size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) noexcept {
  auto x = (const unsigned char*)a; auto y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b) noexcept {
  while (*a && *a == *b) a++, b++;
  return (unsigned char)*a - (unsigned char)*b;
}
void* sym_memchr(const void* s, int c, size_t n) noexcept asm("memchr");
void* sym_memchr(const void* s, int c, size_t n) noexcept {
  auto x = (unsigned char*)s;
  for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return x + i;
  return nullptr;
}
void abort() noexcept { __sym_terminate("abort"); }
void exit(int) noexcept { __sym_terminate("exit"); }
void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { __sym_terminate(e); }
char __libc_single_threaded = 1;
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }  // objects with static storage live to the end
int atexit(void (*)()) noexcept { return 0; }
void __cxa_pure_virtual() { __sym_terminate("pure virtual call"); }
int sym_guard_acquire(char* g) asm("__cxa_guard_acquire");
int sym_guard_acquire(char* g) { return !*g; }
void sym_guard_release(char* g) asm("__cxa_guard_release");
void sym_guard_release(char* g) { *g = 1; }
void sym_guard_abort(char*) asm("__cxa_guard_abort");
void sym_guard_abort(char*) {}
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_trylock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t*) noexcept { return 0; }
unsigned long pthread_self() noexcept { return 1; }
int __pthread_key_create(unsigned*, void (*)(void*)) noexcept { return 0; }
double sqrt(double x) noexcept { (void)x; __sym_terminate("sqrt is not modelled"); }
}

// ------------------------------------------------------------ exceptions
namespace {
struct Hdr {
  std::type_info* ti;
  void (*dtor)(void*);
  long count;
  long refs;
  Hdr* next;
  long pad;
};
Hdr* caught = nullptr;
long uncaught = 0;
Hdr* hdr(void* p) { return (Hdr*)((char*)p - sizeof(Hdr)); }
void* obj(Hdr* h) { return (char*)h + sizeof(Hdr); }
void release(Hdr* h) {
  if (--h->refs == 0) {
    if (h->dtor) h->dtor(obj(h));
    __sym_free(h, KEXC);
  }
}
}
extern "C" {
int __gxx_personality_v0(...) { return 0; }
void* __cxa_allocate_exception(size_t n) noexcept {
  auto* h = (Hdr*)__sym_malloc(sizeof(Hdr) + n, KEXC);
  h->ti = nullptr; h->dtor = nullptr; h->count = 0; h->refs = 1; h->next = nullptr; h->pad = 0;
  return obj(h);
}
void __cxa_free_exception(void* p) noexcept { __sym_free(hdr(p), KEXC); }
void __cxa_throw(void* p, std::type_info* ti, void (*dtor)(void*)) {
  Hdr* h = hdr(p);
  h->ti = ti;
  h->dtor = dtor;
  uncaught++;
  __sym_unwind(p, ti);
}
void* __cxa_begin_catch(void* p) noexcept {
  Hdr* h = hdr(p);
  h->count = h->count < 0 ? -h->count + 1 : h->count + 1;
  uncaught--;
  if (caught != h) { h->next = caught; caught = h; }
  return p;
}
void* __cxa_get_exception_ptr(void* p) noexcept { return p; }
void __cxa_end_catch() {
  Hdr* h = caught;
  if (!h) return;
  if (h->count < 0) {
    if (++h->count == 0) caught = h->next;
  } else if (--h->count == 0) {
    caught = h->next;
    release(h);
  }
}
void __cxa_rethrow() {
  Hdr* h = caught;
  if (!h) __sym_terminate("rethrow without an exception");
  h->count = -h->count;
  uncaught++;
  __sym_unwind(obj(h), h->ti);
}
void __cxa_call_unexpected(void*) { __sym_terminate("unexpected exception"); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
bool __sym_uncaught() { return uncaught > 0; }
void* sym_dynamic_cast(const void*, const std::type_info*, const std::type_info*, ptrdiff_t) asm("__dynamic_cast");
void* sym_dynamic_cast(const void*, const std::type_info*, const std::type_info*, ptrdiff_t) { __sym_terminate("dynamic_cast is not modelled"); }
}
namespace std {
void terminate() noexcept { __sym_terminate("std::terminate"); }
bool uncaught_exception() noexcept { return uncaught > 0; }
int uncaught_exceptions() noexcept { return uncaught; }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

// reference-counted string of the standard exceptions: one allocation each
namespace { struct Rep { size_t len, cap; long refs; }; }
static const char* repMake(const char* s, size_t n) {
  Rep* r = (Rep*)operator new(sizeof(Rep) + n + 1);
  r->len = r->cap = n; r->refs = 1;
  char* d = (char*)(r + 1);
  for (size_t i = 0; i < n; i++) d[i] = s[i];
  d[n] = 0;
  return d;
}
static void repDrop(const char* p) {
  if (!p) return;
  Rep* r = (Rep*)p - 1;
  if (--r->refs == 0) operator delete((void*)r);
}
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const std::string& s) : _M_p(repMake(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(repMake(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) { if (_M_p) ((Rep*)_M_p - 1)->refs++; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
  if (o._M_p) ((Rep*)o._M_p - 1)->refs++;
  repDrop(_M_p);
  _M_p = o._M_p;
  return *this;
}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { repDrop(_M_p); }

#define SYM_ROOT(C)                                                                    \
  C::C(const string& s) : exception(), _M_msg(s) {}                                    \
  C::C(const char* s) : exception(), _M_msg(s, strlen(s)) {}                           \
  C::C(C&& o) noexcept : exception(), _M_msg((__cow_string&&)o._M_msg) {}              \
  C& C::operator=(C&& o) noexcept { _M_msg = (__cow_string&&)o._M_msg; return *this; } \
  C::C(const C& o) noexcept : exception(), _M_msg(o._M_msg) {}                         \
  C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; }            \
  C::~C() noexcept {}                                                                  \
  const char* C::what() const noexcept { return _M_msg._M_p; }
SYM_ROOT(logic_error)
SYM_ROOT(runtime_error)
#define SYM_DERIVED(C, B)                \
  C::C(const string& s) : B(s) {}        \
  C::C(const char* s) : B(s) {}          \
  C::~C() noexcept {}
SYM_DERIVED(domain_error, logic_error)
SYM_DERIVED(invalid_argument, logic_error)
SYM_DERIVED(length_error, logic_error)
SYM_DERIVED(out_of_range, logic_error)
SYM_DERIVED(range_error, runtime_error)
SYM_DERIVED(overflow_error, runtime_error)
SYM_DERIVED(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_system_error(int) { __sym_terminate("system_error"); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ------------------------------------------------------------ containers
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next);
      std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next;
      y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next;
    x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const t = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do {
    std::swap(t->_M_next, t->_M_prev);
    t = t->_M_prev;
  } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _List_node_base* const n = this->_M_next;
  _List_node_base* const p = this->_M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
}  // namespace __detail

size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  size_t h = seed ^ 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull;
  return h;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// Ordered containers: correct search trees, without rebalancing.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    auto* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) {
    auto* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  auto* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto*& root = h._M_parent;
  auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
    if (a == root) root = b;
    else if (a == a->_M_parent->_M_left) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  auto* newLeft = h._M_left == z ? _Rb_tree_increment(z) : h._M_left;
  auto* newRight = h._M_right == z ? _Rb_tree_decrement(z) : h._M_right;
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    auto* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (!root) { h._M_left = h._M_right = &h; }
  else { h._M_left = newLeft; h._M_right = newRight; }
  return z;
}

// ------------------------------------------------------------ time
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  int64_t t = __sym_now_ns;
  __sym_now_ns += __sym_tick_ns;
  return time_point(duration(t));
}
system_clock::time_point system_clock::now() noexcept { return time_point(chrono::duration_cast<duration>(nanoseconds(__sym_sys_ns))); }
}}
}  // namespace std
