// What the compiler's thread instrumentation (-Zsanitizer=thread, without its run-time library) calls before each
// access to memory. Accesses of the code under test to writable statics are where the scheduler may switch tasks.
#include <stdint.h>
#include <stddef.h>
#include <string.h>

extern char __data_start[] __attribute__((weak)), _end[];
extern void rtsim_access(uint64_t tag);
static __thread int on;

int rtsim_under_test(int x) {
    int old = on;
    on = x;
    return old;
}
static inline void point(const volatile void *p, int kind) {
    if (__builtin_expect(on, 0) && (char *)p >= __data_start && (char *)p < _end) {
        on = 0;
        rtsim_access(((uint64_t)((char *)p - __data_start) << 2) | kind);
        on = 1;
    }
}
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { point(p, 0); } \
    void __tsan_write##n(void *p) { point(p, 1); } \
    void __tsan_read_write##n(void *p) { point(p, 1); } \
    void __tsan_unaligned_read##n(void *p) { point(p, 0); } \
    void __tsan_unaligned_write##n(void *p) { point(p, 1); } \
    void __tsan_unaligned_read_write##n(void *p) { point(p, 1); } \
    void __tsan_volatile_read##n(void *p) { point(p, 0); } \
    void __tsan_volatile_write##n(void *p) { point(p, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { point(p, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { point(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { point(p, 0); }
void __tsan_write_range(void *p, size_t n) { point(p, 1); }
void __tsan_vptr_read(void **p) {}
void __tsan_vptr_update(void **p, void *q) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { point(d, 1); point(s, 0); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { point(d, 1); point(s, 0); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { point(d, 1); return memset(d, c, n); }
#define SC __ATOMIC_SEQ_CST
#define ATOMIC(n, T) \
    T __tsan_atomic##n##_load(const volatile T *p, int o) { point(p, 2); return __atomic_load_n(p, SC); } \
    void __tsan_atomic##n##_store(volatile T *p, T v, int o) { point(p, 3); __atomic_store_n(p, v, SC); } \
    T __tsan_atomic##n##_exchange(volatile T *p, T v, int o) { point(p, 3); return __atomic_exchange_n(p, v, SC); } \
    T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int o) { point(p, 3); return __atomic_fetch_add(p, v, SC); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int o) { point(p, 3); return __atomic_fetch_sub(p, v, SC); } \
    T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int o) { point(p, 3); return __atomic_fetch_and(p, v, SC); } \
    T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int o) { point(p, 3); return __atomic_fetch_or(p, v, SC); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int o) { point(p, 3); return __atomic_fetch_xor(p, v, SC); } \
    T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int o) { point(p, 3); return __atomic_fetch_nand(p, v, SC); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int f) { point(p, 3); return __atomic_compare_exchange_n(p, c, v, 0, SC, SC); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int f) { point(p, 3); return __atomic_compare_exchange_n(p, c, v, 0, SC, SC); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int o, int f) { point(p, 3); __atomic_compare_exchange_n(p, &c, v, 0, SC, SC); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int o) { __atomic_signal_fence(SC); }
