// Stand-ins for the ThreadSanitizer runtime: the compiler emits a call for every
// memory access and atomic operation of the instrumented code; here each is a
// heap check and a possible scheduling point.
#include "internal.h"
#include <string.h>

using namespace simi;
extern "C" char __data_start, _end;

namespace {
constexpr size_t GTOUCH = 8u << 20;
uint8_t gtouch[GTOUCH];            // touch bytes for globals (first 64 MB of .data/.bss)

inline bool touch_shared(uintptr_t a) {
    uint8_t* g;
    if (a - ARENA < ARENA_SIZE) g = &touch_of(a);
    else {
        uintptr_t o = (a - (uintptr_t)&__data_start) >> 3;
        if (a < (uintptr_t)&__data_start || o >= GTOUCH || a >= (uintptr_t)&_end) return false;
        g = &gtouch[o];
    }
    uint8_t t = *g, me = cur->tag;
    if (t == me) return false;
    if (t == 0) { *g = me; return false; }
    *g = 0xff;
    return true;
}
__attribute__((noinline)) void slow_bad(uintptr_t a, unsigned n, bool w, void* pc) { bad_access(a, n, w, pc); }

__attribute__((always_inline)) inline void access(uintptr_t a, unsigned n, bool w, void* pc) {
    if (unlikely(!g_active)) return;
    if (a - ARENA < ARENA_SIZE) {
        uint8_t s = shadow_of(a);
        if (unlikely(s != 16)) {
            if (s == SH_FREED || (a & 15) + n > s) slow_bad(a, n, w, pc);
        }
    }
    Thr* me = cur;
    uint64_t e = ++me->ev;
    if (unlikely(me->nopreempt)) return;
    if (unlikely(touch_shared(a))) { mem_point(K_MEM, a); return; }
    if (unlikely(e == me->stop) || unlikely(--g_any_budget <= 0)) any_point();
}
inline void range(uintptr_t a, size_t n, bool w, void* pc) {
    for (uintptr_t p = a; p < a + n;) {
        unsigned k = unsigned(8 - (p & 7)); if (k > a + n - p) k = unsigned(a + n - p);
        access(p, k, w, pc);
        p += k;
    }
}
inline void apoint(uintptr_t a, unsigned n, bool w, void* pc) {
    if (unlikely(!g_active)) return;
    if (a - ARENA < ARENA_SIZE) {
        uint8_t s = shadow_of(a);
        if (unlikely(s != 16) && (s == SH_FREED || (a & 15) + n > s)) slow_bad(a, n, w, pc);
    }
    Thr* me = cur;
    ++me->ev;
    if (unlikely(me->nopreempt)) return;
    if (touch_shared(a)) mem_point(K_ATOMIC, a);
    else if (unlikely(me->ev == me->stop) || unlikely(--g_any_budget <= 0)) any_point();
}
}  // namespace

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
    if (!g_active) return;
    Thr* me = cur;
    if (me->depth >= 0 && me->depth < SHADOW_STACK) me->pc[me->depth] = PC;
    ++me->depth; (void)pc;
}
void __tsan_func_exit() { if (g_active && cur->depth > 0) --cur->depth; }
#define RW(n) \
    void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { range((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { range((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { range((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { range((uintptr_t)a, n, true, PC); } \
    void __tsan_read_write##n(void* a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void* a) { range((uintptr_t)a, 16, false, PC); }
void __tsan_write16(void* a) { range((uintptr_t)a, 16, true, PC); }
void __tsan_unaligned_read16(void* a) { range((uintptr_t)a, 16, false, PC); }
void __tsan_unaligned_write16(void* a) { range((uintptr_t)a, 16, true, PC); }
void __tsan_volatile_read16(void* a) { range((uintptr_t)a, 16, false, PC); }
void __tsan_volatile_write16(void* a) { range((uintptr_t)a, 16, true, PC); }
void __tsan_read_range(void* a, size_t n) { range((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { range((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { (void)v; access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { range((uintptr_t)s, n, false, PC); range((uintptr_t)d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { range((uintptr_t)s, n, false, PC); range((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { range((uintptr_t)d, n, true, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { apoint((uintptr_t)a, sizeof(T), false, PC); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { apoint((uintptr_t)a, sizeof(T), true, PC); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { apoint((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { apoint((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { apoint((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { apoint((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { apoint((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { apoint((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { apoint((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { \
        apoint((uintptr_t)a, sizeof(T), true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { \
        apoint((uintptr_t)a, sizeof(T), true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { \
        apoint((uintptr_t)a, sizeof(T), true, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
AT(128, __uint128_t)
}
