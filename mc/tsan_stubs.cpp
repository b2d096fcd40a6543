// Own runtime for code compiled with -fsanitize=thread: every memory access of the library reaches g_access.
#include "tsan_stubs.hpp"
#include <string.h>
extern "C" {
void (*g_access)(const void*, size_t, int) = 0;
void (*g_sync)(const void*, int, int) = 0;
static inline void A(const void* p, size_t n, int k) { if (g_access) g_access(p, n, k); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { A(p, n, ACC_R); } \
    void __tsan_write##n(void* p) { A(p, n, ACC_W); } \
    void __tsan_read_write##n(void* p) { A(p, n, ACC_R); A(p, n, ACC_W); } \
    void __tsan_unaligned_read##n(void* p) { A(p, n, ACC_R); } \
    void __tsan_unaligned_write##n(void* p) { A(p, n, ACC_W); } \
    void __tsan_unaligned_read_write##n(void* p) { A(p, n, ACC_R); A(p, n, ACC_W); } \
    void __tsan_volatile_read##n(void* p) { A(p, n, ACC_R); } \
    void __tsan_volatile_write##n(void* p) { A(p, n, ACC_W); } \
    void __tsan_unaligned_volatile_read##n(void* p) { A(p, n, ACC_R); } \
    void __tsan_unaligned_volatile_write##n(void* p) { A(p, n, ACC_W); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { A(p, n, ACC_R); }
void __tsan_write_range(void* p, unsigned long n) { A(p, n, ACC_W); }
void __tsan_vptr_read(void** p) { A(p, 8, ACC_R); }
void __tsan_vptr_update(void** p, void*) { A(p, 8, ACC_W); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { A(s, n, ACC_R); A(d, n, ACC_W); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { A(s, n, ACC_R); A(d, n, ACC_W); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { A(d, n, ACC_W); return memset(d, c, n); }
static inline void Y(const volatile void* p, int what, int mo) { if (g_sync) g_sync((const void*)p, what, mo & 0x7fff); }
#define RMW(b, T, f) T __tsan_atomic##b##_##f(volatile T* p, T v, int mo) { A((const void*)p, sizeof(T), ACC_A); T r = __atomic_##f(p, v, 5); Y(p, 3, mo); return r; }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int mo) { A((const void*)p, sizeof(T), ACC_AR); T r = __atomic_load_n(p, 5); Y(p, 1, mo); return r; } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int mo) { A((const void*)p, sizeof(T), ACC_A); __atomic_store_n(p, v, 5); Y(p, 2, mo); } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int mo) { A((const void*)p, sizeof(T), ACC_A); T r = __atomic_exchange_n(p, v, 5); Y(p, 3, mo); return r; } \
    RMW(b, T, fetch_add) RMW(b, T, fetch_sub) RMW(b, T, fetch_and) RMW(b, T, fetch_or) RMW(b, T, fetch_xor) RMW(b, T, fetch_nand) \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fo) { A((const void*)p, sizeof(T), ACC_A); int k = __atomic_compare_exchange_n(p, c, v, 0, 5, 5); Y(p, k ? 3 : 1, k ? mo : fo); return k; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fo) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, mo, fo); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fo) { __tsan_atomic##b##_compare_exchange_strong(p, &c, v, mo, fo); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { __sync_synchronize(); Y(0, 0, mo); }
void __tsan_atomic_signal_fence(int) {}
}
