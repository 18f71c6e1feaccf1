// Stand-in for the ThreadSanitizer runtime: the code under test is compiled with
// -fsanitize=thread, so every memory access and atomic operation lands here and
// becomes a scheduling point. No race detection happens.
#include "sched.h"
#include <cstring>
#include <sys/mman.h>
#include <type_traits>

using sim::Yield;
static inline void mem(void const *p) {
  auto t = sim::self();
  if (!sim::active || !t)
    return;
  auto a = reinterpret_cast<uintptr_t>(p);
  if (a >= t->stack_lo && a < t->stack_hi)
    return;
  sim::yield_point(Yield::Mem);
}

// Zeroing a large piece of the trace mapping by punching a hole: the same bytes,
// without touching hundreds of megabytes of memory in every simulated run.
static void *zero_or_set(void *d, int c, unsigned long n) {
  if (c == 0 && n >= (1ul << 20)) {
    auto b = reinterpret_cast<uintptr_t>(d), e = b + n;
    auto pb = (b + 4095) & ~4095ul, pe = e & ~4095ul;
    if (madvise(reinterpret_cast<void *>(pb), pe - pb, MADV_REMOVE) == 0) {
      memset(d, 0, pb - b);
      memset(reinterpret_cast<void *>(pe), 0, e - pe);
      return d;
    }
  }
  return memset(d, c, n);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                  \
  void __tsan_read##N(void *p) { mem(p); }                                     \
  void __tsan_write##N(void *p) { mem(p); }                                    \
  void __tsan_read_write##N(void *p) { mem(p); }                               \
  void __tsan_unaligned_read##N(void *p) { mem(p); }                           \
  void __tsan_unaligned_write##N(void *p) { mem(p); }                          \
  void __tsan_unaligned_read_write##N(void *p) { mem(p); }                     \
  void __tsan_volatile_read##N(void *p) { mem(p); }                            \
  void __tsan_volatile_write##N(void *p) { mem(p); }                           \
  void __tsan_unaligned_volatile_read##N(void *p) { mem(p); }                  \
  void __tsan_unaligned_volatile_write##N(void *p) { mem(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { mem(p); }
void __tsan_vptr_read(void **p) { mem(p); }
void __tsan_read_range(void *p, unsigned long) { mem(p); }
void __tsan_write_range(void *p, unsigned long) { mem(p); }
void *__tsan_memcpy(void *d, void const *s, unsigned long n) {
  mem(s);
  mem(d);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, void const *s, unsigned long n) {
  mem(s);
  mem(d);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n) {
  mem(d);
  return zero_or_set(d, c, n);
}
static inline void at() { sim::yield_point(Yield::Atomic); }

#define ATOMIC(BITS, T)                                                        \
  T __tsan_atomic##BITS##_load(const volatile T *a, int) {                     \
    at();                                                                      \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##BITS##_store(volatile T *a, T v, int) {                  \
    at();                                                                      \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##BITS##_exchange(volatile T *a, T v, int) {                  \
    at();                                                                      \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  T __tsan_atomic##BITS##_fetch_add(volatile T *a, T v, int) {                 \
    at();                                                                      \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##BITS##_fetch_sub(volatile T *a, T v, int) {                 \
    at();                                                                      \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##BITS##_fetch_and(volatile T *a, T v, int) {                 \
    at();                                                                      \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##BITS##_fetch_or(volatile T *a, T v, int) {                  \
    at();                                                                      \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  T __tsan_atomic##BITS##_fetch_xor(volatile T *a, T v, int) {                 \
    at();                                                                      \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##BITS##_fetch_nand(volatile T *a, T v, int) {                \
    at();                                                                      \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *a, T *c, T v,  \
                                                    int, int) {                \
    at();                                                                      \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *a, T *c, T v,    \
                                                  int, int) {                  \
    at();                                                                      \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T *a, T c, T v, int,   \
                                               int) {                          \
    at();                                                                      \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST,             \
                                __ATOMIC_SEQ_CST);                             \
    return c;                                                                  \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { at(); }
void __tsan_atomic_signal_fence(int) {}
}
