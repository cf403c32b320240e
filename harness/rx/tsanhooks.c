// The runtime is compiled with -fsanitize=thread, but linked with these hooks instead of the sanitizer's runtime:
// each instrumented memory access is a point at which the controlled scheduler may preempt.
#include <stdint.h>
#include <string.h>
#include "vt.h"
#define H(name) void name(void* a) { (void)a; vt_mem(); }
H(__tsan_read1) H(__tsan_read2) H(__tsan_read4) H(__tsan_read8) H(__tsan_read16)
H(__tsan_write1) H(__tsan_write2) H(__tsan_write4) H(__tsan_write8) H(__tsan_write16)
H(__tsan_unaligned_read2) H(__tsan_unaligned_read4) H(__tsan_unaligned_read8) H(__tsan_unaligned_read16)
H(__tsan_unaligned_write2) H(__tsan_unaligned_write4) H(__tsan_unaligned_write8) H(__tsan_unaligned_write16)
H(__tsan_volatile_read1) H(__tsan_volatile_read2) H(__tsan_volatile_read4) H(__tsan_volatile_read8) H(__tsan_volatile_read16)
H(__tsan_volatile_write1) H(__tsan_volatile_write2) H(__tsan_volatile_write4) H(__tsan_volatile_write8) H(__tsan_volatile_write16)
H(__tsan_read1_pc) H(__tsan_vptr_read)
void __tsan_vptr_update(void** a, void* b) { (void)a; (void)b; vt_mem(); }
void __tsan_read_range(void* a, unsigned long n) { (void)a; (void)n; vt_mem(); }
void __tsan_write_range(void* a, unsigned long n) { (void)a; (void)n; vt_mem(); }
void __tsan_func_entry(void* pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { vt_mem(); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { vt_mem(); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { vt_mem(); return memmove(d, s, n); }
#define A(W, T) \
  T __tsan_atomic##W##_load(const volatile T* a, int mo) { (void)mo; vt_mem(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##W##_store(volatile T* a, T v, int mo) { (void)mo; vt_mem(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_exchange(volatile T* a, T v, int mo) { (void)mo; vt_mem(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_add(volatile T* a, T v, int mo) { (void)mo; vt_mem(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_sub(volatile T* a, T v, int mo) { (void)mo; vt_mem(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_and(volatile T* a, T v, int mo) { (void)mo; vt_mem(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_or(volatile T* a, T v, int mo) { (void)mo; vt_mem(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_xor(volatile T* a, T v, int mo) { (void)mo; vt_mem(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_nand(volatile T* a, T v, int mo) { (void)mo; vt_mem(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##W##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { (void)mo; (void)fmo; vt_mem(); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##W##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { (void)mo; (void)fmo; vt_mem(); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { (void)mo; (void)fmo; vt_mem(); \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; vt_mem(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
