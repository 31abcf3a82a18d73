// Internals shared by the simulator's translation units.
#pragma once
#include "simrt.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>

#define HID __attribute__((visibility("hidden")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

namespace simi {

// ---- raw system calls (never the interposed wrappers) ------------------
inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

constexpr int MAXT = 320;
constexpr size_t STACK_SIZE = 1024 * 1024;
constexpr uintptr_t STACK_BASE = 0x200000000000ull;
constexpr int SHADOW_STACK = 256;

enum State : uint8_t { UNUSED, RUNNABLE, BLOCKED, SLEEPING, DONE };
enum WaitKind : uint8_t { W_NONE, W_MUTEX, W_RD, W_WR, W_COND, W_JOIN, W_FUTEX, W_SLEEP, W_ONCE, W_SEM };
extern const char* const WAIT_NAMES[];

struct Dev { int32_t tid; int32_t choice; uint64_t ev; };

struct Thr {
    int id = 0;
    State state = UNUSED;
    WaitKind wk = W_NONE;
    volatile int go = 0;
    uint64_t ev = 0;               // events executed by this thread (key of a decision)
    uint64_t stop = ~0ull;         // next recorded decision (replay)
    uint64_t run_points = 0;       // points since it last gave up the processor
    uint64_t run_ev0 = 0;
    uint64_t wake = 0;             // simulated time to wake (timed waits and sleeps)
    uint64_t wait_seq = 0;         // FIFO order of waiters
    uintptr_t wait_obj = 0;
    bool timed = false, timed_out = false, signalled = false;
    bool worker = false;           // created by the code under test
    bool detached = false, joined = false;
    int nopreempt = 0;
    int allocfaults = 0;               // client thread that accepts allocation failures
    int prio = 0;
    uint8_t tag = 0;
    pthread_t real = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    // replay cursor
    const Dev* dev = nullptr; uint64_t ndev = 0, idev = 0;
    // shadow call stack (diagnostics only)
    int depth = 0;
    void* pc[SHADOW_STACK];
    // thread_local destructors
    int ndtor = 0;
    struct { void (*f)(void*); void* o; } dtor[32];
};

constexpr int MAX_DEV = 1 << 20;
constexpr int MAX_NAMES = 96;
struct Counter { char name[48]; uint64_t n; };

enum Verdict : int { V_NONE = 0, V_OK = 1, V_VIOLATION = 2, V_ERROR = 3 };

struct Shm {
    int verdict;
    char cls[96];
    char msg[16384];
    uint64_t hash, ihash;
    uint64_t points, sim_ns, switches, preempts, events, threads;
    uint64_t maxrss;
    int nontrivial;
    uint64_t n_dev;
    Counter faults[MAX_NAMES];
    Counter probes[MAX_NAMES];
    Counter knowns[MAX_NAMES];
    uint64_t trace_len;
    char trace[1 << 18];
    int n_ops;
    sim::Op ops[4096];
    Dev devs[MAX_DEV];
};

extern Shm* shm;
extern volatile bool g_active;     // a simulated run is in progress
extern Thr* cur;
extern Thr thr[MAXT];
extern int nthr;
extern bool g_replay;
extern bool g_faults_on;

void bump(Counter* tab, const char* name, uint64_t by = 1);
uint64_t counter(Counter* tab, const char* name);
void hash_mix(uint64_t a, uint64_t b, uint64_t c);
void ihash_mix(uint64_t a);

// scheduling
enum Kind { K_NONE, K_LOCK, K_UNLOCK, K_RDLOCK, K_WRLOCK, K_RWUNLOCK, K_CREATE, K_JOIN, K_EXIT, K_COND, K_SIGNAL,
            K_SLEEP, K_YIELD, K_CLOCK, K_FUTEX, K_ATOMIC, K_MEM, K_ONCE, K_IO, K_POINT, K_START };
void sync_point(Kind k, uintptr_t addr);
void mem_point(Kind k, uintptr_t addr);      // shared memory access
void any_point();                            // cur->ev reached cur->stop or the search budget
void block(WaitKind k, uintptr_t obj, bool timed, uint64_t wake);
void wake_all(WaitKind k, uintptr_t obj);
void sleep_until(uint64_t t);
extern int64_t g_any_budget;
extern int64_t g_shared_budget;
extern uint64_t g_now;

// heap
constexpr uintptr_t ARENA = 0x100000000000ull;
constexpr size_t HARNESS_SIZE = 2ull << 30;
constexpr size_t RUN_SIZE = 14ull << 30;
constexpr size_t ARENA_SIZE = HARNESS_SIZE + RUN_SIZE;
constexpr uintptr_t SHADOW = 0x110000000000ull;       // 1 byte per 16
constexpr uintptr_t TOUCH = 0x120000000000ull;        // 1 byte per 8
void heap_begin_run();
bool heap_lock_check(uintptr_t a);           // false if a lies in a freed block
void heap_describe(uintptr_t a, char* out, size_t n);
void bad_access(uintptr_t a, unsigned size, bool write, void* pc);
bool alloc_should_fail();
inline uint8_t& shadow_of(uintptr_t a) { return *(uint8_t*)(SHADOW + ((a - ARENA) >> 4)); }
inline uint8_t& touch_of(uintptr_t a) { return *(uint8_t*)(TOUCH + ((a - ARENA) >> 3)); }
constexpr uint8_t SH_FREED = 0x80;

void locks_in_range(uintptr_t a, size_t n);
void finish(Verdict v, const char* cls, const char* msg) __attribute__((noreturn));
void vviolate(const char* cls, const char* fmt, va_list ap) __attribute__((noreturn));
void describe_threads(char* out, size_t n);
void io_begin_run();
void io_setup();
void io_teardown();
int vformat(char* out, size_t n, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
}  // namespace simi
