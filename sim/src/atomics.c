// Targets of the calls that the compiler inserts at every atomic operation of the instrumented Rust
// code (the thread-sanitizer instrumentation pass; the sanitizer's own runtime is not linked).  Each
// call is a scheduling point of the simulator; then the operation is done, sequentially consistent.
// This file is C so that nothing in it is instrumented.
#include <stdint.h>
#include <unistd.h>
#include <sys/syscall.h>

extern void mt_atomic_point(void);
volatile int mt_fine = 0; // 0: outside a run, 1: only spin detection, 2: every operation
static __thread int inside;

static inline void pt(void) {
    if (!mt_fine || inside) return;
    inside = 1;
    mt_atomic_point();
    inside = 0;
}
void __tsan_init(void) {}
void __tsan_func_entry(void *a) { (void)a; }
void __tsan_func_exit(void) {}
void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

#define RMW(N, T, name, op) \
    T __tsan_atomic##N##_##name(volatile T *a, T v, int o) { (void)o; pt(); return op(a, v, __ATOMIC_SEQ_CST); }
#define ALL(N, T) \
    T __tsan_atomic##N##_load(const volatile T *a, int o) { (void)o; pt(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int o) { (void)o; pt(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    RMW(N, T, exchange, __atomic_exchange_n) \
    RMW(N, T, fetch_add, __atomic_fetch_add) \
    RMW(N, T, fetch_sub, __atomic_fetch_sub) \
    RMW(N, T, fetch_and, __atomic_fetch_and) \
    RMW(N, T, fetch_or, __atomic_fetch_or) \
    RMW(N, T, fetch_xor, __atomic_fetch_xor) \
    RMW(N, T, fetch_nand, __atomic_fetch_nand) \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { \
        (void)o; (void)f; pt(); \
        __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return c; \
    } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { \
        (void)o; (void)f; pt(); \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { \
        return __tsan_atomic##N##_compare_exchange_strong(a, c, v, o, f); \
    }
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)

// ---- gates: how a task that does not hold the baton waits in the real kernel
static long raw_futex(volatile uint32_t *a, int op, uint32_t v) {
    long r;
    register long r10 __asm__("r10") = 0;
    register long r8 __asm__("r8") = 0;
    register long r9 __asm__("r9") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "0"((long)SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
void mt_gate_open(volatile uint32_t *g) {
    __atomic_store_n(g, 1, __ATOMIC_SEQ_CST);
    raw_futex(g, 129, 1);
}
void mt_gate_wait(volatile uint32_t *g) {
    while (__atomic_exchange_n(g, 0, __ATOMIC_SEQ_CST) == 0) raw_futex(g, 128, 0);
}
