// Scheduler, virtual clock, synchronisation objects, fault switches, driver.
#include "internal.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ucontext.h>
#include <iostream>
#include <streambuf>
#include <algorithm>
#include <cxxabi.h>
#include <exception>

using namespace simi;

namespace simi {
const char* const WAIT_NAMES[] = {"-", "mutex", "read lock", "write lock", "condition", "join", "futex", "sleep", "once", "semaphore"};
Shm* shm;
volatile bool g_active = false;
Thr* cur;
Thr thr[MAXT];
int nthr;
bool g_replay;
bool g_faults_on = true;
int64_t g_any_budget = 1ll << 62;
int64_t g_shared_budget = 1ll << 62;
uint64_t g_now;
}  // namespace simi

namespace {
// ---- parameters of this run's search strategy ----------------------------
struct Strat {
    double p_sync = 0.1, p_shared = 0.0, p_tick = 0.1, p_any = 0.0;
    bool pct = false;
    int pct_left = 0; double p_change = 0.0;
    int max_preempt = 1 << 30;
    double scale = 1.0;             // scenarios that crunch numbers ask for fewer preemptions per access
} st;
sim::Rng srng(1);
uint64_t points_, max_points = 400000, max_ns = 0, wait_seq_;

bool fair;
uint64_t glob_seq;
int64_t jump_at = -1, jump_delta, jump_total;
int create_fail = -1; bool spawning;
uint64_t hash_, ihash_;
const uint64_t WALL0 = 1700000000ull * 1000000000ull;
uint64_t n_switch, n_preempt;

int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
template <class F> F* real(const char* n) { return (F*)dlsym(RTLD_NEXT, n); }

void futex_wait(volatile int* w) {
    while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) rsys(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
void futex_wake(volatile int* w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    rsys(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1);
}
}  // namespace

namespace simi {
int vformat(char* out, size_t n, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); int r = vsnprintf(out, n, fmt, ap); va_end(ap); return r;
}
void bump(Counter* tab, const char* name, uint64_t by) {
    for (int i = 0; i < MAX_NAMES; ++i) {
        if (!tab[i].name[0]) { strncpy(tab[i].name, name, sizeof tab[i].name - 1); tab[i].n = by; return; }
        if (!strncmp(tab[i].name, name, sizeof tab[i].name - 1)) { tab[i].n += by; return; }
    }
}
uint64_t counter(Counter* tab, const char* name) {
    for (int i = 0; i < MAX_NAMES && tab[i].name[0]; ++i) if (!strncmp(tab[i].name, name, sizeof tab[i].name - 1)) return tab[i].n;
    return 0;
}
void hash_mix(uint64_t a, uint64_t b, uint64_t c) {
    uint64_t h = hash_;
    h = (h ^ a) * 0x100000001b3ull; h ^= h >> 29;
    h = (h ^ b) * 0x9E3779B97F4A7C15ull; h ^= h >> 31;
    h = (h ^ c) * 0xff51afd7ed558ccdull; h ^= h >> 33;
    hash_ = h;
}
void ihash_mix(uint64_t a) { ihash_ = (ihash_ ^ a) * 0x9E3779B97F4A7C15ull; ihash_ ^= ihash_ >> 29; }

void describe_threads(char* out, size_t n) {
    size_t k = 0;
    for (int i = 0; i < nthr && k + 200 < n; ++i) {
        Thr& t = thr[i];
        if (t.state == DONE) continue;
        k += size_t(vformat(out + k, n - k, "T%d%s %s", t.id, t.worker ? " (worker)" : "",
            t.state == RUNNABLE ? "runnable" : t.state == SLEEPING ? "sleeping" : "blocked on"));
        if (t.state == BLOCKED) k += size_t(vformat(out + k, n - k, " %s %lx", WAIT_NAMES[t.wk], (unsigned long)t.wait_obj));
        k += size_t(vformat(out + k, n - k, " at"));
        int d = t.depth < SHADOW_STACK ? t.depth : SHADOW_STACK;
        for (int j = d - 1; j >= 0 && j > d - 9 && k + 64 < n; --j) k += size_t(vformat(out + k, n - k, " %p", t.pc[j]));
        k += size_t(vformat(out + k, n - k, "\n"));
    }
}
void finish(Verdict v, const char* cls, const char* msg) {
    g_active = false;
    shm->hash = hash_; shm->ihash = ihash_; shm->points = points_; shm->sim_ns = g_now;
    shm->switches = n_switch; shm->preempts = n_preempt; shm->threads = uint64_t(nthr);
    uint64_t e = 0; for (int i = 0; i < nthr; ++i) e += thr[i].ev;
    shm->events = e;
    if (cls) strncpy(shm->cls, cls, sizeof shm->cls - 1);
    if (msg) strncpy(shm->msg, msg, sizeof shm->msg - 1);
    struct rusage ru; getrusage(RUSAGE_SELF, &ru); shm->maxrss = uint64_t(ru.ru_maxrss);
    __atomic_store_n(&shm->verdict, int(v), __ATOMIC_RELEASE);
    rsys(SYS_exit_group, 0);
    __builtin_unreachable();
}
void vviolate(const char* cls, const char* fmt, va_list ap) {
    static char b[16000];
    g_active = false;
    size_t k = size_t(vsnprintf(b, 6000, fmt, ap));
    if (k > 5999) k = 5999;
    k += size_t(vformat(b + k, sizeof b - k, "\n"));
    describe_threads(b + k, sizeof b - k);
    finish(V_VIOLATION, cls, b);
}
}  // namespace simi

// ---- choosing who runs -------------------------------------------------
namespace {
void record(int choice) {
    if (g_replay) return;
    if (shm->n_dev < MAX_DEV) { Dev& d = shm->devs[shm->n_dev]; d.tid = cur->id; d.choice = choice; d.ev = cur->ev; }
    ++shm->n_dev;
}
void wake_timers() {
    for (int i = 0; i < nthr; ++i) {
        Thr& t = thr[i];
        if (t.timed && (t.state == SLEEPING || t.state == BLOCKED) && t.wake <= g_now) {
            t.timed_out = (t.state == BLOCKED); t.state = RUNNABLE; t.timed = false;
        }
    }
}
void advance_to(uint64_t t) { if (t > g_now) g_now = t; wake_timers(); }
bool sleeper(const Thr& t) { return t.timed && (t.state == SLEEPING || t.state == BLOCKED); }
uint64_t earliest() {
    uint64_t e = ~0ull;
    for (int i = 0; i < nthr; ++i) if (sleeper(thr[i]) && thr[i].wake < e) e = thr[i].wake;
    return e;
}
Thr* rr_next() {                    // next runnable after the current one
    for (int k = 1; k <= nthr; ++k) { Thr& t = thr[(cur->id + k) % nthr]; if (t.state == RUNNABLE && &t != cur) return &t; }
    return nullptr;
}
void go(Thr* t) {                   // give the processor to t (runnable)
    if (t == cur) return;
    Thr* me = cur;
    ++n_switch;
    hash_mix(0x53, uint64_t(me->id) << 32 | uint64_t(t->id), me->ev);
    ihash_mix(0x1000 + uint64_t(me->id) * 64 + uint64_t(t->id));
    me->run_points = 0; t->run_points = 0; t->run_ev0 = t->ev;
    cur = t;
    futex_wake(&t->go);
    futex_wait(&me->go);
}
void hang() {
    static char b[512];
    vformat(b, sizeof b, "no progress after %lu scheduling points and %.3f simulated seconds", (unsigned long)points_, double(g_now) / 1e9);
    va_list ap; memset(&ap, 0, sizeof ap);
    sim::violate("hang", "%s", b);
}
// the current thread cannot continue: choose another
void pick_blocked() {
    for (;;) {
        wake_timers();
        if (cur->state == RUNNABLE) {
            // its own timer fired while choosing
        }
        Thr* cand[MAXT]; int n = 0;
        for (int k = 1; k <= nthr; ++k) { Thr& t = thr[(cur->id + k) % nthr]; if (t.state == RUNNABLE) cand[n++] = &t; }
        if (!n) {
            uint64_t e = earliest();
            if (e == ~0ull) sim::violate("deadlock", "every thread is blocked");
            if (max_ns && e > max_ns) hang();
            advance_to(e);
            continue;
        }
        Thr* t = cand[0];
        if (!fair) {
            if (g_replay) {
                if (cur->ev == cur->stop) {
                    int c = cur->dev[cur->idev].choice;
                    ++cur->idev; cur->stop = cur->idev < cur->ndev ? cur->dev[cur->idev].ev : ~0ull;
                    if (c >= 0 && c < nthr) {
                        if (sleeper(thr[c])) advance_to(thr[c].wake);
                        if (thr[c].state == RUNNABLE) t = &thr[c];
                    }
                }
            } else {
                Thr* c = t;
                uint64_t e;
                if (st.p_tick > 0 && (e = earliest()) != ~0ull && srng.chance(st.p_tick)) {
                    for (int i = 0; i < nthr; ++i) if (sleeper(thr[i]) && thr[i].wake == e) { c = &thr[i]; break; }
                    int id = c->id;
                    record(id);
                    advance_to(e);
                    c = &thr[id];
                } else {
                    if (st.pct) { for (int i = 0; i < n; ++i) if (cand[i]->prio > c->prio) c = cand[i]; }
                    else if (n > 1) c = cand[srng.below(uint32_t(n))];
                    if (c != t) record(c->id);
                }
                t = c;
            }
        }
        if (t == cur) { cur->run_points = 0; return; }
        go(t);
        return;
    }
}
// the current thread may continue; choose whether it does (search)
void maybe_preempt(double p) {
    Thr* me = cur;
    if (st.pct) {
        if (st.pct_left > 0 && srng.chance(st.p_change)) { --st.pct_left; me->prio = st.pct_left; }
        Thr* b = me;
        for (int i = 0; i < nthr; ++i) if (thr[i].state == RUNNABLE && thr[i].prio > b->prio) b = &thr[i];
        uint64_t e;
        if (srng.chance(st.p_tick * 0.1 * st.scale) && (e = earliest()) != ~0ull) {
            for (int i = 0; i < nthr; ++i) if (sleeper(thr[i]) && thr[i].wake == e) { b = &thr[i]; break; }
            record(b->id); ++n_preempt; advance_to(e); go(b); return;
        }
        if (b != me) { record(b->id); ++n_preempt; go(b); }
        return;
    }
    if (int(n_preempt) >= st.max_preempt) return;
    if (!srng.chance(p)) return;
    Thr* cand[MAXT]; int n = 0;
    for (int k = 1; k < nthr; ++k) { Thr& t = thr[(me->id + k) % nthr]; if (t.state == RUNNABLE) cand[n++] = &t; }
    uint64_t e;
    if ((n == 0 || srng.chance(st.p_tick)) && (e = earliest()) != ~0ull) {
        if (n == 0 && !srng.chance(st.p_tick)) return;
        int c = -1, k = 0;
        for (int i = 0; i < nthr; ++i) if (sleeper(thr[i]) && thr[i].wake == e && srng.below(uint32_t(++k)) == 0) c = i;
        if (max_ns && e > max_ns) return;
        record(c); ++n_preempt; advance_to(e); go(&thr[c]); return;
    }
    if (!n) return;
    Thr* t = cand[srng.below(uint32_t(n))];
    record(t->id); ++n_preempt; go(t);
}
// bookkeeping common to search and replay; true if a decision was already taken
bool common(Thr* me) {
    if (me->nopreempt) return true;
    if (unlikely(fair)) {
        g_now += 1000;
        if (points_ > 2 * max_points) hang();
        if (++me->run_points > 40) {
            me->run_points = 0;
            wake_timers();
            if (Thr* t = rr_next()) go(t);
            else { uint64_t e = earliest(); if (e != ~0ull && !(max_ns && e > max_ns)) { advance_to(e); if ((t = rr_next())) go(t); } }
        }
        return true;
    }
    if (unlikely(points_ >= max_points)) { fair = true; bump(shm->probes, "sim.fair-mode"); return true; }
    if (unlikely(++me->run_points > 20000)) {       // starvation guard, deterministic
        me->run_points = 0;
        Thr* t = rr_next();
        if (!t) { uint64_t e = earliest(); if (e != ~0ull) { advance_to(e); t = rr_next(); } }
        if (t) { go(t); return true; }
    }
    return false;
}
void replay_here(Thr* me) {
    if (me->ev != me->stop) return;
    int c = me->dev[me->idev].choice;
    ++me->idev; me->stop = me->idev < me->ndev ? me->dev[me->idev].ev : ~0ull;
    if (c < 0 || c >= nthr) return;
    if (sleeper(thr[c])) advance_to(thr[c].wake);
    if (thr[c].state == RUNNABLE && c != me->id) { ++n_preempt; go(&thr[c]); }
}
void refill_any() {
    if (g_replay || st.p_any <= 0 || fair) { g_any_budget = 1ll << 62; return; }
    double u = srng.unit(); if (u < 1e-12) u = 1e-12;
    g_any_budget = int64_t(-__builtin_log(u) / st.p_any) + 1;
}
}  // namespace

namespace simi {
void sync_point(Kind k, uintptr_t addr) {
    Thr* me = cur;
    ++me->ev; ++points_; ++glob_seq;
    g_now += 100;
    hash_mix(uint64_t(k) << 32 | uint64_t(me->id), addr, me->ev);
    ihash_mix(uint64_t(k) * 64 + uint64_t(me->id));
    if (common(me)) { return; }
    if (g_replay) replay_here(me); else maybe_preempt(st.p_sync);
}
void mem_point(Kind k, uintptr_t addr) {
    Thr* me = cur;
    if (k == K_ATOMIC) { ++points_; }
    (void)addr;
    if (unlikely(points_ >= max_points) || k == K_ATOMIC) { if (common(me)) return; }
    if (g_replay) { if (me->ev == me->stop) replay_here(me); return; }
    if (st.p_shared > 0) maybe_preempt(st.p_shared);
}
void any_point() {
    Thr* me = cur;
    if (g_replay) { if (me->ev == me->stop && !fair) replay_here(me); else g_any_budget = 1ll << 62; return; }
    refill_any();
    if (fair || points_ >= max_points) return;
    maybe_preempt(1.0);
}
void block(WaitKind k, uintptr_t obj, bool timed, uint64_t wake) {
    Thr* me = cur;
    ++me->ev;
    me->state = (k == W_SLEEP) ? SLEEPING : BLOCKED;
    me->wk = k; me->wait_obj = obj; me->timed = timed; me->wake = wake; me->timed_out = false; me->signalled = false;
    me->wait_seq = ++wait_seq_;
    ++points_;
    if (points_ > 2 * max_points) hang();
    if (points_ >= max_points && !fair) { fair = true; bump(shm->probes, "sim.fair-mode"); }
    hash_mix(0xB0 + uint64_t(k), uint64_t(me->id), obj);
    pick_blocked();
    me->wk = W_NONE; me->wait_obj = 0; me->timed = false;
}
void wake_all(WaitKind k, uintptr_t obj) {
    for (int i = 0; i < nthr; ++i)
        if (thr[i].state == BLOCKED && thr[i].wait_obj == obj && (thr[i].wk == k || (k == W_MUTEX && (thr[i].wk == W_RD || thr[i].wk == W_WR)))) {
            thr[i].state = RUNNABLE; thr[i].timed = false; thr[i].timed_out = false; thr[i].signalled = true;
        }
}
void sleep_until(uint64_t t) {
    sync_point(K_SLEEP, 0);
    if (t <= g_now) { return; }
    if (cur->nopreempt) { g_now = t; return; }
    block(W_SLEEP, 0, true, t);
}
}  // namespace simi

// ---- lock table ----------------------------------------------------------
namespace {
struct Lock { uintptr_t addr; Lock* next; int owner; int rec; int readers; int act; uint8_t rd[MAXT]; };
constexpr int NB = 4096, NL = 4096;
Lock pool[NL]; Lock* freel; Lock* bucket[NB]; bool lock_init;
Lock* act[NL]; int nact;            // the locks in the table
unsigned hb(uintptr_t a) { return unsigned((a >> 3) * 0x9E3779B1u >> 7) % NB; }
Lock* lk(uintptr_t a) {
    if (!lock_init) { lock_init = true; for (int i = 0; i < NL; ++i) { pool[i].next = freel; freel = &pool[i]; } }
    for (Lock* l = bucket[hb(a)]; l; l = l->next) if (l->addr == a) return l;
    if (!freel) { finish(V_ERROR, "sim", "too many locks held"); }
    Lock* l = freel; freel = l->next;
    memset(l, 0, sizeof *l);
    l->addr = a; l->owner = -1; l->next = bucket[hb(a)]; bucket[hb(a)] = l;
    l->act = nact; act[nact++] = l;
    return l;
}
void drop(Lock* l) {                // forget an idle lock nobody waits for
    if (l->owner >= 0 || l->readers) return;
    Lock** p = &bucket[hb(l->addr)];
    while (*p && *p != l) p = &(*p)->next;
    if (*p) { *p = l->next; l->next = freel; freel = l; act[l->act] = act[--nact]; act[l->act]->act = l->act; }
}
void lock_live(uintptr_t a, const char* what) {
    if (!heap_lock_check(a)) { char b[900]; heap_describe(a, b, sizeof b); sim::violate("use-after-free", "%s on a lock inside %s", what, b); }
}
bool on() { return g_active && cur; }
int mtype(pthread_mutex_t* m) { return m->__data.__kind & 3; }

int mutex_lock(pthread_mutex_t* m, bool tr, bool timed, uint64_t until) {
    uintptr_t a = (uintptr_t)m;
    lock_live(a, "locking");
    sync_point(K_LOCK, a);
    for (;;) {
        lock_live(a, "locking");
        Lock* l = lk(a);
        if (l->owner < 0) { l->owner = cur->id; l->rec = 1; return 0; }
        if (l->owner == cur->id) {
            if (mtype(m) == 1) { ++l->rec; return 0; }
            if (tr) return EBUSY;
            if (mtype(m) == 2) return EDEADLK;
        } else if (tr) return EBUSY;
        if (timed && g_now >= until) return ETIMEDOUT;
        if (cur->nopreempt) finish(V_ERROR, "sim", "lock contention inside an oracle section");
        block(W_MUTEX, a, timed, until);
    }
}
int mutex_unlock(pthread_mutex_t* m) {
    uintptr_t a = (uintptr_t)m;
    lock_live(a, "unlocking");
    Lock* l = lk(a);
    if (l->owner != cur->id) {
        sim::violate("lock-misuse", "T%d unlocks a mutex it does not hold (owner T%d)", cur->id, l->owner);
    }
    if (--l->rec > 0) return 0;
    l->owner = -1;
    drop(l);
    wake_all(W_MUTEX, a);
    sync_point(K_UNLOCK, a);
    return 0;
}
int rw_lock(pthread_rwlock_t* m, bool write, bool tr, bool timed, uint64_t until) {
    uintptr_t a = (uintptr_t)m;
    lock_live(a, "locking");
    sync_point(write ? K_WRLOCK : K_RDLOCK, a);
    for (;;) {
        lock_live(a, "locking");
        Lock* l = lk(a);
        if (write) {
            if (l->owner < 0 && l->readers == 0) { l->owner = cur->id; return 0; }
            if (l->owner == cur->id && !tr) sim::violate("self-deadlock", "T%d locks a read/write lock that it holds itself", cur->id);   // glibc: EDEADLK
        } else {
            if (l->owner < 0) { ++l->readers; ++l->rd[cur->id]; return 0; }
            if (l->owner == cur->id && !tr) sim::violate("self-deadlock", "T%d reads under a read/write lock that it holds exclusively itself", cur->id);
        }
        if (tr) return EBUSY;
        if (timed && g_now >= until) return ETIMEDOUT;
        if (cur->nopreempt) finish(V_ERROR, "sim", "lock contention inside an oracle section");
        block(write ? W_WR : W_RD, a, timed, until);
    }
}
int rw_unlock(pthread_rwlock_t* m) {
    uintptr_t a = (uintptr_t)m;
    lock_live(a, "unlocking");
    Lock* l = lk(a);
    if (l->owner == cur->id) l->owner = -1;
    else if (l->rd[cur->id] > 0) { --l->rd[cur->id]; --l->readers; }
    else sim::violate("lock-misuse", "T%d unlocks a read/write lock it does not hold", cur->id);
    if (l->owner < 0 && l->readers == 0) { drop(l); wake_all(W_MUTEX, a); }
    sync_point(K_RWUNLOCK, a);
    return 0;
}
uint64_t to_ns(const struct timespec* t) { return uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec); }
void check_jump() {
    if (jump_at >= 0 && g_faults_on && int64_t(g_now) >= jump_at) { jump_total += jump_delta; jump_at = -1; sim::note_fault("clock-jump"); }
}
uint64_t wall() { check_jump(); return WALL0 + g_now + uint64_t(jump_total); }
// deadline on a given clock -> simulated monotonic deadline
uint64_t deadline(clockid_t c, const struct timespec* t) {
    uint64_t n = to_ns(t);
    if (c == CLOCK_MONOTONIC) return n;
    uint64_t w = wall();
    return n <= w ? g_now : g_now + (n - w);
}
}  // namespace
namespace simi {
void locks_in_range(uintptr_t a, size_t n) {
    for (int i = 0; i < nact; ++i)
        if (Lock* l = act[i])
            if (l->addr >= a && l->addr < a + n && (l->owner >= 0 || l->readers)) {
                char d[900]; heap_describe(a, d, sizeof d);
                sim::violate("destroyed-locked", "a lock held by T%d is freed with %s", l->owner, d);
            }
}
}  // namespace simi

// ---- interposed thread API ---------------------------------------------
namespace {
Thr* of(pthread_t p) { for (int i = 0; i < nthr; ++i) if (thr[i].real == p && thr[i].state != UNUSED) return &thr[i]; return nullptr; }
uint8_t sigstk[MAXT][16384];
void run_dtors(Thr* me) { while (me->ndtor > 0) { auto d = me->dtor[--me->ndtor]; d.f(d.o); } }
void thread_done(void* ret) {
    Thr* me = cur;
    run_dtors(me);
    me->ret = ret;
    ++me->ev;
    hash_mix(0xED, uint64_t(me->id), me->ev);
    ihash_mix(0xED00 + uint64_t(me->id));
    me->state = DONE;
    wake_all(W_JOIN, (uintptr_t)me);
    // choose a successor, then park for ever (the process leaves with _exit)
    Thr* cand[MAXT]; int n = 0;
    (void)cand; (void)n;
    pick_blocked();
    for (;;) futex_wait(&me->go);
}
void* tramp(void* p) {
    Thr* me = (Thr*)p;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = sigstk[me->id]; ss.ss_size = sizeof sigstk[0];
    sigaltstack(&ss, nullptr);
    futex_wait(&me->go);
    void* r = nullptr;
    r = me->fn(me->arg);
    thread_done(r);
    return nullptr;
}
int create(pthread_t* out, void* (*fn)(void*), void* arg, bool worker) {
    if (nthr >= MAXT) finish(V_ERROR, "sim", "too many threads");
    Thr* t = &thr[nthr];
    int id = nthr;
    t->id = id; t->fn = fn; t->arg = arg; t->worker = worker; t->state = RUNNABLE;
    t->tag = uint8_t(1 + id % 250);
    t->prio = int(1000 + (g_replay ? 0 : srng.below(1000)));
    uintptr_t stk = STACK_BASE + uintptr_t(id) * STACK_SIZE;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)stk, STACK_SIZE);
    pthread_t p;
    int rc = real_pthread_create(&p, &at, tramp, t);
    pthread_attr_destroy(&at);
    if (rc) finish(V_ERROR, "sim", "real pthread_create failed");
    t->real = p;
    ++nthr;
    *out = p;
    return 0;
}
}  // namespace

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    if (!on()) return real_pthread_create(out, at, fn, arg);
    bool worker = !spawning; spawning = false;
    sync_point(K_CREATE, 0);
    if (worker && create_fail >= 0 && g_faults_on) {
        if (create_fail-- == 0) { sim::note_fault("thread-create"); return EAGAIN; }
    }
    int det = 0;
    if (at) pthread_attr_getdetachstate(at, &det);
    int rc = create(out, fn, arg, worker);
    if (det == PTHREAD_CREATE_DETACHED) thr[nthr - 1].detached = true;
    for (Thr* t = &thr[nthr - 1]; g_replay && t;) break;
    sync_point(K_START, uint64_t(nthr));
    return rc;
}
int pthread_join(pthread_t p, void** ret) {
    if (!on()) { static auto r = real<int(pthread_t, void**)>("pthread_join"); return r(p, ret); }
    sync_point(K_JOIN, 0);
    Thr* t = of(p);
    if (!t || t->joined || t->detached) { sim::violate("lock-misuse", "join of a thread that is not joinable"); }
    if (t == cur) return EDEADLK;
    while (t->state != DONE) block(W_JOIN, (uintptr_t)t, false, 0);
    t->joined = true;
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!on()) { static auto r = real<int(pthread_t)>("pthread_detach"); return r(p); }
    if (Thr* t = of(p)) t->detached = true;
    return 0;
}
void pthread_exit(void* r) { if (on()) thread_done(r); rsys(SYS_exit_group, 71); __builtin_unreachable(); }

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on()) return 0;
    return mutex_lock(m, false, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m) { return on() ? mutex_lock(m, true, false, 0) : 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { return on() ? mutex_lock(m, false, true, deadline(CLOCK_REALTIME, t)) : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { return on() ? mutex_lock(m, false, true, deadline(c, t)) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { return on() ? mutex_unlock(m) : 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return on() ? rw_lock(m, false, false, false, 0) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return on() ? rw_lock(m, true, false, false, 0) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return on() ? rw_lock(m, false, true, false, 0) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return on() ? rw_lock(m, true, true, false, 0) : 0; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) { return on() ? rw_lock(m, false, false, true, deadline(CLOCK_REALTIME, t)) : 0; }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) { return on() ? rw_lock(m, true, false, true, deadline(CLOCK_REALTIME, t)) : 0; }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) { return on() ? rw_lock(m, false, false, true, deadline(c, t)) : 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) { return on() ? rw_lock(m, true, false, true, deadline(c, t)) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return on() ? rw_unlock(m) : 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t until) {
    lock_live((uintptr_t)c, "waiting");
    // release, wait, re-acquire; release and enqueue are one step
    Lock* l = lk((uintptr_t)m);
    if (l->owner != cur->id) sim::violate("lock-misuse", "condition wait without holding the mutex");
    int rec = l->rec;
    sync_point(K_COND, (uintptr_t)c);
    l = lk((uintptr_t)m);
    l->owner = -1; drop(l);
    wake_all(W_MUTEX, (uintptr_t)m);
    bool to = false;
    if (timed && g_now >= until) to = true;
    else { block(W_COND, (uintptr_t)c, timed, until); to = cur->timed_out && !cur->signalled; }
    mutex_lock(m, false, false, 0);
    lk((uintptr_t)m)->rec = rec;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return on() ? cond_wait(c, m, false, 0) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return on() ? cond_wait(c, m, true, deadline(CLOCK_REALTIME, t)) : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return on() ? cond_wait(c, m, true, deadline(k, t)) : 0; }
static Thr* oldest(WaitKind k, uintptr_t a) {
    Thr* b = nullptr;
    for (int i = 0; i < nthr; ++i) if (thr[i].state == BLOCKED && thr[i].wk == k && thr[i].wait_obj == a && (!b || thr[i].wait_seq < b->wait_seq)) b = &thr[i];
    return b;
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!on()) return 0;
    lock_live((uintptr_t)c, "signalling");
    sync_point(K_SIGNAL, (uintptr_t)c);
    if (Thr* t = oldest(W_COND, (uintptr_t)c)) { t->state = RUNNABLE; t->signalled = true; t->timed = false; t->timed_out = false; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!on()) return 0;
    lock_live((uintptr_t)c, "signalling");
    sync_point(K_SIGNAL, (uintptr_t)c);
    wake_all(W_COND, (uintptr_t)c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

int pthread_once(pthread_once_t* o, void (*f)()) {
    volatile int* w = (volatile int*)o;
    if (!on()) { if (*w == 2) return 0; *w = 2; f(); return 0; }
    sync_point(K_ONCE, (uintptr_t)o);
    while (*w == 1) block(W_ONCE, (uintptr_t)o, false, 0);
    if (*w == 2) return 0;
    *w = 1;
    try { f(); } catch (...) { *w = 0; wake_all(W_ONCE, (uintptr_t)o); throw; }
    *w = 2;
    wake_all(W_ONCE, (uintptr_t)o);
    return 0;
}
// function-local statics
int __cxa_guard_acquire(long long* g) {
    volatile char* b = (volatile char*)g;
    if (b[0]) return 0;
    if (!on()) { b[1] = 1; return 1; }
    sync_point(K_ONCE, (uintptr_t)g);
    while (b[1] && !b[0]) block(W_ONCE, (uintptr_t)g, false, 0);
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) {
    volatile char* b = (volatile char*)g;
    b[1] = 0; b[0] = 1;
    if (on()) { wake_all(W_ONCE, (uintptr_t)g); }
}
void __cxa_guard_abort(long long* g) {
    volatile char* b = (volatile char*)g;
    b[1] = 0;
    if (on()) wake_all(W_ONCE, (uintptr_t)g);
}
int __cxa_thread_atexit(void (*f)(void*), void* o, void*) {
    if (!on()) return 0;             // the driver's own thread never ends normally
    Thr* me = cur;
    if (me->ndtor >= 32) finish(V_ERROR, "sim", "too many thread_local destructors");
    me->dtor[me->ndtor].f = f; me->dtor[me->ndtor].o = o; ++me->ndtor;
    return 0;
}

int sem_init(sem_t* s, int, unsigned v) { *(volatile unsigned*)s = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) {
    ++*(volatile unsigned*)s;
    if (on()) { if (Thr* t = oldest(W_SEM, (uintptr_t)s)) { t->state = RUNNABLE; t->signalled = true; t->timed = false; } sync_point(K_SIGNAL, (uintptr_t)s); }
    return 0;
}
static int sem_w(sem_t* s, bool tr, bool timed, uint64_t until) {
    volatile unsigned* v = (volatile unsigned*)s;
    if (on()) sync_point(K_LOCK, (uintptr_t)s);
    for (;;) {
        if (*v) { --*v; return 0; }
        if (tr || !on()) { errno = EAGAIN; return -1; }
        if (timed && g_now >= until) { errno = ETIMEDOUT; return -1; }
        block(W_SEM, (uintptr_t)s, timed, until);
    }
}
int sem_wait(sem_t* s) { return sem_w(s, false, false, 0); }
int sem_trywait(sem_t* s) { return sem_w(s, true, false, 0); }
int sem_timedwait(sem_t* s, const struct timespec* t) { return sem_w(s, false, true, deadline(CLOCK_REALTIME, t)); }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { return sem_w(s, false, true, deadline(c, t)); }

long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on() && n == SYS_futex) {
        int op = int(b) & 127 & ~FUTEX_CLOCK_REALTIME;
        bool rt = b & FUTEX_CLOCK_REALTIME;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point(K_FUTEX, uintptr_t(a));
            if (*(volatile int*)a != int(c)) { errno = EAGAIN; return -1; }
            bool timed = d != 0; uint64_t until = 0;
            if (timed) until = (op == FUTEX_WAIT) ? g_now + to_ns((struct timespec*)d) : deadline(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, (struct timespec*)d);
            block(W_FUTEX, uintptr_t(a), timed, until);
            if (cur->timed_out && !cur->signalled) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long k = 0;
            while (k < c) { Thr* t = oldest(W_FUTEX, uintptr_t(a)); if (!t) break; t->state = RUNNABLE; t->signalled = true; t->timed = false; t->timed_out = false; ++k; }
            sync_point(K_FUTEX, uintptr_t(a));
            return k;
        }
    }
    long r = rsys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = int(-r); return -1; }
    return r;
}

// ---- clock and sleeping --------------------------------------------------
int clock_gettime(clockid_t c, struct timespec* t) {
    if (!on()) { long r = rsys(SYS_clock_gettime, c, (long)t); if (r < 0) { errno = int(-r); return -1; } return 0; }
    if (!cur->nopreempt) g_now += 50;
    uint64_t n = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall() : g_now;
    t->tv_sec = time_t(n / 1000000000ull); t->tv_nsec = long(n % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval* t, void*) {
    struct timespec s; clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int nanosleep(const struct timespec* t, struct timespec* rem) {
    if (!on()) return int(rsys(SYS_nanosleep, (long)t, (long)rem));
    uint64_t ns = to_ns(t);          // t and rem may be the same object
    sleep_until(g_now + ns);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
    if (!on()) return int(-rsys(SYS_clock_nanosleep, c, flags, (long)t, (long)rem));
    sleep_until((flags & TIMER_ABSTIME) ? deadline(c, t) : g_now + to_ns(t));
    return 0;
}
int usleep(useconds_t u) { if (!on()) { struct timespec t = {u / 1000000, long(u % 1000000) * 1000}; return int(rsys(SYS_nanosleep, (long)&t, 0)); } sleep_until(g_now + uint64_t(u) * 1000); return 0; }
unsigned sleep(unsigned s) { if (on()) sleep_until(g_now + uint64_t(s) * 1000000000ull); return 0; }
int sched_yield() {
    if (!on()) return int(rsys(SYS_sched_yield));
    sync_point(K_YIELD, 0);
    if (cur->nopreempt) return 0;
    // a yield lets somebody else run: rotate deterministically
    g_now += 1000; wake_timers();
    if (Thr* t = rr_next()) go(t);
    else { uint64_t e = earliest(); if (e != ~0ull && e < g_now + 50000000ull) { advance_to(e); if ((t = rr_next())) go(t); } }
    return 0;
}
int get_nprocs() { return 4; }
int get_nprocs_conf() { return 4; }
}  // extern "C"

// ---- public interface -------------------------------------------------------
namespace {
std::vector<sim::Scenario>& scen() { static std::vector<sim::Scenario> s; return s; }
sim::Scenario* find_scen(const char* n) { for (auto& s : scen()) if (!strcmp(s.name, n)) return &s; return nullptr; }
int client_ids[128]; int n_clients;
struct Body { std::function<void()> f; };
void* client(void* p) { Body* b = (Body*)p; b->f(); delete b; return nullptr; }
}  // namespace

namespace sim {
void register_scenario(const Scenario& s) { scen().push_back(s); }
Op& Plan::add(int t, const char* n, std::initializer_list<int64_t> args) {
    Op o; o.thr = t; strncpy(o.name, n, sizeof o.name - 1);
    int i = 0; for (int64_t v : args) if (i < 8) o.a[i++] = v;
    ops.push_back(o); return ops.back();
}
int64_t Plan::cfg(const char* n, int64_t d) const { for (auto& o : ops) if (o.thr == -1 && o.is(n)) return o.a[0]; return d; }
void violate(const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vviolate(cls, fmt, ap); }
void check(bool ok, const char* cls, const char* fmt, ...) { if (ok) return; va_list ap; va_start(ap, fmt); vviolate(cls, fmt, ap); }
void known(const char* key, const char* fmt, ...) {
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    const char* listed = getenv("SIM_KNOWN");      // keys of known-findings.jsonl
    if (!listed || !strstr((" " + std::string(listed) + " ").c_str(), (" " + std::string(key) + " ").c_str())) violate(key, "%s", b);
    bump(shm->knowns, key);
    trace("known %s: %s", key, b);
}
void probe(const char* n) { bump(shm->probes, n); }
void nontrivial() { shm->nontrivial = 1; }
uint64_t seq() { return ++glob_seq; }
uint64_t now_ns() { return g_now; }
uint64_t points() { return points_; }
int tid() { return cur ? cur->id : -1; }
void trace(const char* fmt, ...) {
    if (shm->trace_len + 700 > sizeof shm->trace) return;
    char* o = shm->trace + shm->trace_len;
    int k = snprintf(o, 64, "[%lu T%d] ", (unsigned long)glob_seq, cur ? cur->id : -1);
    va_list ap; va_start(ap, fmt); int r = vsnprintf(o + k, 600, fmt, ap); va_end(ap);
    if (r > 599) r = 599;
    o[k + r] = '\n';
    shm->trace_len += uint64_t(k + r + 1);
}
NoPreempt::NoPreempt() { if (cur) ++cur->nopreempt; }
NoPreempt::~NoPreempt() { if (cur) --cur->nopreempt; }
AllocFaults::AllocFaults() { if (cur) ++cur->allocfaults; }
AllocFaults::~AllocFaults() { if (cur) --cur->allocfaults; }
void point(const char*) { if (on()) sync_point(K_POINT, 0); }
void set_density(double f) {
    st.scale = f; st.p_shared *= f; st.p_any *= f; st.p_change *= f;
    refill_any();
}
void set_horizon(uint64_t p, uint64_t ns) { max_points = p; max_ns = ns; }
int spawn(std::function<void()> body) {
    Body* b = new Body{std::move(body)};
    pthread_t p; spawning = true;
    pthread_create(&p, nullptr, client, b);
    Thr* t = of(p);
    client_ids[n_clients++] = t->id;
    return t->id;
}
void join(int id) { void* r; pthread_join(thr[id].real, &r); for (int i = 0; i < n_clients; ++i) if (client_ids[i] == id) { client_ids[i] = client_ids[--n_clients]; break; } }
void join_all() { while (n_clients) join(client_ids[0]); }
void fault_thread_create(int n) { create_fail = n; }
void fault_clock_jump(int64_t at, int64_t d) { jump_at = at; jump_delta = d; }
void fault_enable(bool v) { g_faults_on = v; }
void note_fault(const char* k) { bump(shm->faults, k); hash_mix(0xFA, uint64_t(k[0]), 0); trace("fault %s", k); }
uint64_t fault_fired(const char* k) { return counter(shm->faults, k); }
uint64_t fault_fired_total() { uint64_t n = 0; for (auto& c : shm->faults) n += c.n; return n; }
bool in_worker() { return cur && cur->worker; }
}  // namespace sim

// ---- one run ---------------------------------------------------------------
namespace {
struct NullBuf : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
} nullbuf;

void on_signal(int sig, siginfo_t* si, void* uc) {
    static char b[16000];
    g_active = false;
    ucontext_t* u = (ucontext_t*)uc;
    void* pc = (void*)u->uc_mcontext.gregs[REG_RIP];
    uintptr_t a = (uintptr_t)si->si_addr;
    const char* extra = "";
    std::type_info* ti = nullptr; (void)ti;
    char cls[64];
    snprintf(cls, sizeof cls, "crash-%s", sig == SIGSEGV ? "segv" : sig == SIGABRT ? "abort" : sig == SIGBUS ? "bus" : sig == SIGFPE ? "fpe" : "ill");
    int k = snprintf(b, sizeof b, "signal %d in T%d at %p, address %p%s\n", sig, cur ? cur->id : -1, pc, sig == SIGABRT ? nullptr : (void*)a, extra);
    describe_threads(b + k, sizeof b - size_t(k));
    finish(V_VIOLATION, cls, b);
}

void on_terminate() {
    static char b[16000];
    bool act = g_active;
    g_active = false;
    const char* ty = "no active exception"; const char* wh = "";
    if (std::type_info* ti = abi::__cxa_current_exception_type()) {
        ty = ti->name();
        try { throw; } catch (const std::exception& e) { wh = e.what(); } catch (...) {}
    }
    if (!shm || !act) { fprintf(stderr, "terminate: %s %s\n", ty, wh); _exit(70); }
    int k = snprintf(b, sizeof b, "std::terminate in T%d: %s %s\n", cur ? cur->id : -1, ty, wh);
    describe_threads(b + k, sizeof b - size_t(k));
    finish(V_VIOLATION, "crash-terminate", b);
}
const sim::Plan* the_plan; sim::Scenario* the_scen;
void* main_thread(void*) {
    the_scen->run(*the_plan);
    finish(V_OK, "", "");
}

void set_strategy(uint64_t seed) {
    srng = sim::Rng(seed * 0x2545F4914F6CDD1Dull + 77);
    uint32_t k = srng.below(10);
    static const double syncs[] = {0.02, 0.05, 0.1, 0.2, 0.35, 0.6};
    static const double shareds[] = {0.0, 0.002, 0.01, 0.03, 0.1, 0.3};
    static const double ticks[] = {0.0, 0.02, 0.1, 0.3, 0.6};
    st.p_sync = syncs[srng.below(6)];
    st.p_tick = ticks[srng.below(5)];
    if (k < 2) { st.p_shared = 0; }                                 // lock-level random walk
    else if (k < 6) { st.p_shared = shareds[1 + srng.below(5)]; }    // shared-access-directed
    else if (k < 7) { st.p_shared = 0.3; st.p_sync = 0.3; st.max_preempt = 1 + int(srng.below(6)); }  // few preemptions
    else if (k < 8) { st.p_any = 1.0 / double(20 << srng.below(10)); }  // anywhere
    else { st.pct = true; st.pct_left = 1 + int(srng.below(5)); st.p_change = 1.0 / double(20 << srng.below(8)); st.p_shared = srng.chance(0.5) ? 1.0 : 0.0; }
    refill_any();
}

// in the forked child: never returns
void run_child(sim::Scenario* s, const sim::Plan& plan, uint64_t seed, bool replay, const std::vector<Dev>& devs) {
    rsys(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL);
    // global futex hash: newer kernels keep an exited process's memory until the
    // private hash's grace period ends, which piles up at our rate of processes
    rsys(SYS_prctl, 78 /* PR_FUTEX_HASH */, 1 /* SET_SLOTS */, 0, 0, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(sg, &sa, nullptr);
    g_replay = replay;
    the_plan = &plan; the_scen = s;
    shm->n_ops = int(plan.ops.size() < 4096 ? plan.ops.size() : 4096);
    for (int i = 0; i < shm->n_ops; ++i) shm->ops[i] = plan.ops[size_t(i)];
    if (!replay) set_strategy(seed);
    // per-thread replay cursors
    if (replay) {
        Dev* d = (Dev*)rsys(SYS_mmap, 0, long(sizeof(Dev) * (devs.size() + 1)), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        size_t n = 0;
        for (int t = 0; t < MAXT; ++t) {
            size_t s0 = n;
            for (auto& x : devs) if (x.tid == t) d[n++] = x;
            if (n > s0) { std::stable_sort(d + s0, d + n, [](const Dev& a, const Dev& b) { return a.ev < b.ev; }); thr[t].dev = d + s0; thr[t].ndev = n - s0; thr[t].stop = d[s0].ev; }
        }
    }
    long m = rsys(SYS_mmap, STACK_BASE, long(STACK_SIZE * MAXT), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != long(STACK_BASE)) finish(V_ERROR, "sim", "cannot map thread stacks");
    io_begin_run();
    heap_begin_run();
    nthr = 0; g_now = 1000000000ull;
    hash_ = 0xcbf29ce484222325ull; ihash_ = 0x1234567;
    // the run's main thread
    Thr* t = &thr[0];
    pthread_t p;
    cur = nullptr;
    create(&p, main_thread, nullptr, false);
    thr[0].prio = 1500;
    cur = t;
    g_active = true;
    futex_wake(&t->go);
    for (;;) pause();
}

void pin(int cpu) {
    cpu_set_t c; CPU_ZERO(&c);
    if (sched_getaffinity(0, sizeof c, &c) == 0) {
        int n = CPU_COUNT(&c); if (n < 1) return;
        int want = cpu % n, k = 0;
        for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &c)) { if (k++ == want) { cpu_set_t o; CPU_ZERO(&o); CPU_SET(i, &o); sched_setaffinity(0, sizeof o, &o); return; } }
    }
}
double wallclock() { struct timespec t; rsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return double(t.tv_sec) + double(t.tv_nsec) / 1e9; }

void reset_shm() {
    // everything in front of the big arrays, then only what was used of them
    Counter* tabs[] = {shm->faults, shm->probes, shm->knowns};
    for (auto* t : tabs) memset(t, 0, sizeof(Counter) * MAX_NAMES);
    shm->verdict = 0; shm->cls[0] = 0; memset(shm->msg, 0, sizeof shm->msg); memset(shm->cls, 0, sizeof shm->cls);
    shm->hash = shm->ihash = shm->points = shm->sim_ns = shm->switches = shm->preempts = shm->events = shm->threads = 0;
    shm->nontrivial = 0; shm->n_dev = 0; shm->trace_len = 0; shm->n_ops = 0;
}
// run one simulation in a child; fills shm
void execute(sim::Scenario* s, const sim::Plan& plan, uint64_t seed, bool replay, const std::vector<Dev>& devs, double limit) {
    reset_shm();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) run_child(s, plan, seed, replay, devs);
    double t0 = wallclock();
    int status = 0;
    // SIGCHLD is blocked in the driver; wait with a timeout
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        double left = limit - (wallclock() - t0);
        if (left <= 0) { kill(pid, SIGKILL); waitpid(pid, &status, 0); if (!shm->verdict) { shm->verdict = V_ERROR; strcpy(shm->cls, "sim-timeout"); snprintf(shm->msg, sizeof shm->msg, "run exceeded %.0f s of real time", limit); } break; }
        struct timespec ts; ts.tv_sec = time_t(left); ts.tv_nsec = long((left - double(ts.tv_sec)) * 1e9);
        sigtimedwait(&ss, nullptr, &ts);
    }
    if (!shm->verdict) {
        shm->verdict = V_ERROR; strcpy(shm->cls, "sim-died");
        snprintf(shm->msg, sizeof shm->msg, "run ended without a verdict, status %x", status);
        if (WIFSIGNALED(status) && WTERMSIG(status) != SIGKILL) {
            shm->verdict = V_VIOLATION; snprintf(shm->cls, sizeof shm->cls, "crash-signal%d", WTERMSIG(status));
        }
    }
}
void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
void json_tab(FILE* f, const Counter* t) {
    fputc('{', f);
    for (int i = 0; i < MAX_NAMES && t[i].name[0]; ++i) { if (i) fputc(',', f); json_str(f, t[i].name); fprintf(f, ":%lu", (unsigned long)t[i].n); }
    fputc('}', f);
}
const char* VN[] = {"none", "ok", "violation", "error"};
void result_json(FILE* f, const char* scen, uint64_t seed, bool full) {
    fprintf(f, "{\"type\":\"run\",\"scenario\":\"%s\",\"seed\":%lu,\"verdict\":\"%s\",\"hash\":\"%016lx\",\"ihash\":\"%016lx\",\"points\":%lu,\"events\":%lu,\"sim_ns\":%lu,\"switches\":%lu,\"preempts\":%lu,\"threads\":%lu,\"maxrss\":%lu,\"nontrivial\":%d,\"cls\":",
        scen, (unsigned long)seed, VN[shm->verdict], (unsigned long)shm->hash, (unsigned long)shm->ihash, (unsigned long)shm->points, (unsigned long)shm->events,
        (unsigned long)shm->sim_ns, (unsigned long)shm->switches, (unsigned long)shm->preempts, (unsigned long)shm->threads, (unsigned long)shm->maxrss, shm->nontrivial);
    json_str(f, shm->cls);
    fprintf(f, ",\"msg\":"); json_str(f, shm->msg);
    fprintf(f, ",\"faults\":"); json_tab(f, shm->faults);
    fprintf(f, ",\"probes\":"); json_tab(f, shm->probes);
    fprintf(f, ",\"knowns\":"); json_tab(f, shm->knowns);
    fprintf(f, ",\"n_dev\":%lu", (unsigned long)shm->n_dev);
    if (full) {
        fprintf(f, ",\"ops\":[");
        for (int i = 0; i < shm->n_ops; ++i) {
            sim::Op& o = shm->ops[i];
            if (i) fputc(',', f);
            fprintf(f, "[%d,\"%s\",[", o.thr, o.name);
            for (int j = 0; j < 8; ++j) fprintf(f, "%s%ld", j ? "," : "", (long)o.a[j]);
            fprintf(f, "]]");
        }
        fprintf(f, "],\"devs\":[");
        uint64_t n = shm->n_dev < MAX_DEV ? shm->n_dev : MAX_DEV;
        for (uint64_t i = 0; i < n; ++i) fprintf(f, "%s[%d,%lu,%d]", i ? "," : "", shm->devs[i].tid, (unsigned long)shm->devs[i].ev, shm->devs[i].choice);
        fprintf(f, "],\"trace\":");
        shm->trace[shm->trace_len < sizeof shm->trace ? shm->trace_len : sizeof shm->trace - 1] = 0;
        json_str(f, shm->trace);
    }
    fprintf(f, "}\n");
    fflush(f);
}
// replay text -> plan, deviations
bool read_replay(FILE* f, std::string& scen_, sim::Plan& p, std::vector<Dev>& d, uint64_t* seed, bool* use_seed) {
    char line[1024]; bool any = false;
    p.ops.clear(); d.clear(); *use_seed = false;
    while (fgets(line, sizeof line, f)) {
        char w[64], nm[64]; long v[10] = {0};
        if (sscanf(line, "%63s", w) != 1) continue;
        if (!strcmp(w, "end")) return any;
        if (!strcmp(w, "scenario")) { if (sscanf(line, "%*s %63s", nm) == 1) { scen_ = nm; any = true; } }
        else if (!strcmp(w, "schedule-seed")) { if (sscanf(line, "%*s %ld", &v[0]) == 1) { *seed = uint64_t(v[0]); *use_seed = true; } }
        else if (!strcmp(w, "op")) {
            sim::Op o; int t;
            if (sscanf(line, "%*s %d %27s %ld %ld %ld %ld %ld %ld %ld %ld", &t, nm, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7) >= 2) {
                o.thr = t; strncpy(o.name, nm, sizeof o.name - 1);
                for (int i = 0; i < 8; ++i) o.a[i] = v[i];
                p.ops.push_back(o);
            }
        } else if (!strcmp(w, "dev")) {
            if (sscanf(line, "%*s %ld %ld %ld", v, v + 1, v + 2) == 3) { Dev x; x.tid = int32_t(v[0]); x.ev = uint64_t(v[1]); x.choice = int32_t(v[2]); d.push_back(x); }
        }
    }
    return any;
}
}  // namespace

extern "C" __attribute__((weak)) void sim_warmup() {}

int main(int argc, char** argv) {
    // deterministic addresses for shared libraries and the initial stack
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_ASLR_FIX")) {
        if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_ASLR_FIX", "1", 1); execv("/proc/self/exe", argv); }
    }
    rsys(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL);
    real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    shm = (Shm*)rsys(SYS_mmap, 0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);
    const char* mode = argc > 1 ? argv[1] : "list";
    std::set_terminate(on_terminate);
    const char* name = nullptr; uint64_t start = 1, count = 1, stride = 1; double budget = 1e9, limit = 120; int cpu = -1; int stop_after = 1; bool verbose = false;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)"0"; };
        if (a == "--scenario") name = nx();
        else if (a == "--seed") start = strtoull(nx(), nullptr, 10);
        else if (a == "--count") count = strtoull(nx(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(nx(), nullptr, 10);
        else if (a == "--budget") budget = atof(nx());
        else if (a == "--limit") limit = atof(nx());
        else if (a == "--cpu") cpu = atoi(nx());
        else if (a == "--stop-after") stop_after = atoi(nx());
        else if (a == "-v") verbose = true;
    }
    if (!strcmp(mode, "list")) { for (auto& s : scen()) printf("%s\t%s\n", s.name, s.rule ? s.rule : ""); return 0; }
    if (cpu >= 0) pin(cpu);
    // own process group would hide us from the caller's kill; keep it
    std::streambuf* old = std::cout.rdbuf();
    std::streambuf* olde = std::cerr.rdbuf();
    (void)old; (void)olde;
    if (!getenv("SIM_COUT")) { std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf); std::clog.rdbuf(&nullbuf); }
    simi::io_setup();
    atexit(simi::io_teardown);
    sim_warmup();
    static sim::Plan plan; static std::vector<Dev> devs; static std::string sname;
    plan.ops.reserve(8192);

    if (!strcmp(mode, "replay")) {             // replay texts on stdin, one result per text
        uint64_t sd = 0; bool us = false;
        while (read_replay(stdin, sname, plan, devs, &sd, &us)) {
            sim::Scenario* s = find_scen(sname.c_str());
            if (!s) { fprintf(stderr, "no scenario %s\n", sname.c_str()); return 2; }
            execute(s, plan, sd, !us, devs, limit);
            result_json(stdout, s->name, sd, true);
        }
        return 0;
    }
    sim::Scenario* s = name ? find_scen(name) : nullptr;
    if (!s) { fprintf(stderr, "no such scenario\n"); return 2; }
    if (!strcmp(mode, "one")) {
        sim::Rng r(start * 2 + 1); plan.ops.clear(); s->gen(r, plan);
        execute(s, plan, start, false, devs, limit);
        result_json(stdout, s->name, start, true);
        return 0;
    }
    if (!strcmp(mode, "run")) {
        double t0 = wallclock(); int bad = 0;
        for (uint64_t i = 0; i < count; ++i) {
            if (wallclock() - t0 > budget) break;
            uint64_t seed = start + i * stride;
            sim::Rng r(seed * 2 + 1); plan.ops.clear(); s->gen(r, plan);
            execute(s, plan, seed, false, devs, limit);
            (void)verbose;
            result_json(stdout, s->name, seed, false);
            if (shm->verdict != V_OK && ++bad >= stop_after) break;
        }
        return 0;
    }
    return 2;
}
