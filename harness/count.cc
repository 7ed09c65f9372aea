// Counts the work the library does: the memory accesses of code compiled with
// the compiler's thread instrumentation (the library and the generated message
// code), the allocations, and the bytes copied and compared by libc's functions,
// also where the protocol buffer library calls them. Not instrumented itself.
// The counts depend on the code and its inputs only, not on the machine.
#include "count.h"
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
namespace vf { namespace count {
int quiet = 1;
uint64_t accesses, allocations, bytes;
}}
using namespace vf::count;
#define MEM() do { if (!quiet) accesses++; } while (0)
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t);
void* malloc(size_t n) { if (!quiet) allocations++; return __libc_malloc(n); }
void free(void* p) { if (!quiet) allocations++; __libc_free(p); }
void* realloc(void* p, size_t n) { if (!quiet) { allocations++; bytes += n; } return __libc_realloc(p, n); }
void* calloc(size_t a, size_t b) { if (!quiet) { allocations++; bytes += a * b; } return __libc_calloc(a, b); }
// Written with loops of their own that the compiler must not turn into calls.
#define OWN __attribute__((optimize("no-tree-loop-distribute-patterns")))
OWN void* memcpy(void* d, const void* s, size_t n) {
  if (!quiet) bytes += n;
  void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
OWN void* memmove(void* d, const void* s, size_t n) {
  if (!quiet) bytes += n;
  char* a = (char*)d; const char* b = (const char*)s;
  if (a <= b || a >= b + n) { void* x = d; __asm__ volatile("rep movsb" : "+D"(x), "+S"(s), "+c"(n) : : "memory"); }
  else while (n--) a[n] = b[n];
  return d;
}
OWN void* memset(void* d, int c, size_t n) {
  if (!quiet) bytes += n;
  void* x = d; __asm__ volatile("rep stosb" : "+D"(x), "+c"(n) : "a"(c) : "memory"); return d;
}
OWN int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  size_t i = 0; int r = 0;
  for (; i < n; i++) if (x[i] != y[i]) { r = x[i] < y[i] ? -1 : 1; break; }
  if (!quiet) bytes += i;
  return r;
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define A1(n) void __tsan_read##n(void*) { MEM(); } void __tsan_write##n(void*) { MEM(); } \
  void __tsan_unaligned_read##n(void*) { MEM(); } void __tsan_unaligned_write##n(void*) { MEM(); }
A1(1) A1(2) A1(4) A1(8) A1(16)
void __tsan_read_range(void*, size_t n) { MEM(); if (!quiet) bytes += n; }
void __tsan_write_range(void*, size_t n) { MEM(); if (!quiet) bytes += n; }
void __tsan_vptr_update(void**, void*) { MEM(); }
void __tsan_vptr_read(void**) { MEM(); }
#define SC __ATOMIC_SEQ_CST
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { MEM(); return __atomic_load_n(a, SC); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { MEM(); __atomic_store_n(a, v, SC); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { MEM(); return __atomic_exchange_n(a, v, SC); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { MEM(); return __atomic_fetch_add(a, v, SC); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { MEM(); return __atomic_fetch_sub(a, v, SC); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { MEM(); return __atomic_fetch_and(a, v, SC); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { MEM(); return __atomic_fetch_or(a, v, SC); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { MEM(); return __atomic_fetch_xor(a, v, SC); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { MEM(); return __atomic_fetch_nand(a, v, SC); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { MEM(); return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { MEM(); return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { MEM(); __atomic_compare_exchange_n(a, &c, v, false, SC, SC); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int) {}
}
