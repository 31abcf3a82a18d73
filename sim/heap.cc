// Simulated heap: deterministic addresses, freed blocks quarantined and
// poisoned, every instrumented access checked, live blocks accounted.
#include "internal.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <string.h>
#include <stdlib.h>
#include <new>

using namespace simi;

namespace {
struct Hdr {                       // 64 bytes in front of the user pointer
    uint64_t magic;
    uint64_t size;                 // bytes asked for
    uint64_t cap;                  // usable bytes (size class)
    uint32_t seq;
    uint16_t tid;
    uint8_t zone, is_new;
    uint32_t back;                 // distance from the block start to the user pointer
    uint32_t live;
    void* site[3];
};
static_assert(sizeof(Hdr) == 64, "");
constexpr uint64_t MAGIC = 0x5a17b10c5a17b10cull;
bool inited;
uintptr_t bump_[2] = {ARENA, ARENA + HARNESS_SIZE};
uintptr_t lim_[2] = {ARENA + HARNESS_SIZE, ARENA + ARENA_SIZE};
int zone_;
uint32_t seq_;
uint64_t live_new_count, live_new_bytes;
// quarantine and free lists (run zone only)
constexpr size_t QCAP = 1 << 16;
uintptr_t quar[QCAP]; size_t qhead, qtail; uint64_t qbytes;
constexpr uint64_t QLIMIT = 96ull << 20;
constexpr int NCLS = 512;
uintptr_t freelist[NCLS];
int64_t fail_nth = -1; int fail_burst;

size_t round_class(size_t n, int& cls) {
    if (n < 1) n = 1;
    if (n <= 2048) { n = (n + 15) & ~size_t(15); cls = int(n / 16); return n; }
    // 4 classes per power of two
    int lg = 63 - __builtin_clzll(n - 1);        // n in (2^lg, 2^(lg+1)]
    size_t step = size_t(1) << (lg - 2);
    size_t r = (n + step - 1) / step * step;
    cls = 128 + (lg - 11) * 4 + int(r / step - 5) + 1;
    if (cls >= NCLS) cls = NCLS - 1;
    return r;
}
void init() {
    inited = true;
    struct { uintptr_t a; size_t n; } r[] = {{ARENA, ARENA_SIZE}, {SHADOW, ARENA_SIZE / 16}, {TOUCH, ARENA_SIZE / 8}};
    for (auto& x : r) {
        long p = rsys(SYS_mmap, long(x.a), long(x.n), PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != long(x.a)) { const char m[] = "simrt: cannot map the simulated heap\n"; rsys(SYS_write, 2, long(m), sizeof m - 1); rsys(SYS_exit_group, 70); }
    }
}
void set_shadow(uintptr_t a, size_t n) {         // mark [a, a+n) usable
    uint8_t* s = &shadow_of(a);
    memset(s, 16, n / 16);
    if (n % 16) s[n / 16] = uint8_t(n % 16);
}
void* do_alloc(size_t size, size_t align, bool is_new) {
    if (unlikely(!inited)) init();
    if (size > (4ull << 30)) return nullptr;
    int cls; size_t cap = round_class(size, cls);
    int z = zone_;
    uintptr_t user = 0, start = 0;
    if (z == 1 && align <= 16 && freelist[cls] ) {
        // only reuse an exact class
        uintptr_t u = freelist[cls];
        Hdr* h = (Hdr*)(u - sizeof(Hdr));
        if (h->cap >= size && h->back == sizeof(Hdr)) {
            freelist[cls] = *(uintptr_t*)u;
            user = u; start = u - sizeof(Hdr); cap = h->cap;
        }
    }
    if (!user) {
        start = bump_[z];
        user = start + sizeof(Hdr);
        if (align > 16) user = (user + align - 1) & ~uintptr_t(align - 1);
        uintptr_t end = user + cap + 16;
        end = (end + 15) & ~uintptr_t(15);
        if (end > lim_[z]) return nullptr;
        bump_[z] = end;
    }
    Hdr* h = (Hdr*)(user - sizeof(Hdr));
    h->magic = MAGIC; h->size = size; h->cap = cap; h->seq = ++seq_;
    h->zone = uint8_t(z); h->is_new = is_new; h->back = uint32_t(user - start); h->live = 1;
    h->tid = cur ? uint16_t(cur->id) : 0;
    h->site[0] = h->site[1] = h->site[2] = nullptr;
    if (g_active && cur) {
        int d = cur->depth; if (d > SHADOW_STACK) d = SHADOW_STACK;
        for (int i = 0; i < 3 && d - 1 - i >= 0; ++i) h->site[i] = cur->pc[d - 1 - i];
        if (is_new) { ++live_new_count; live_new_bytes += size; }
    }
    set_shadow(user, size ? size : 1);
    memset(&touch_of(user), 0, (cap + 7) / 8);
    return (void*)user;
}
Hdr* hdr_of(void* p) {
    uintptr_t u = (uintptr_t)p;
    if (u < ARENA + sizeof(Hdr) || u >= ARENA + ARENA_SIZE) return nullptr;
    Hdr* h = (Hdr*)(u - sizeof(Hdr));
    return h->magic == MAGIC ? h : nullptr;
}
void do_free(void* p) {
    if (!p) return;
    Hdr* h = hdr_of(p);
    uintptr_t u = (uintptr_t)p;
    if (!h) {
        if (u >= ARENA && u < ARENA + ARENA_SIZE && g_active) sim::violate("bad-free", "free of %p, which is not a heap block", p);
        return;
    }
    if (!h->live) {
        if (g_active) { char b[900]; heap_describe(u, b, sizeof b); sim::violate("double-free", "second free of %s", b); }
        return;
    }
    if (g_active) {
        locks_in_range(u, h->size);
        if (h->is_new && h->zone == 1) { --live_new_count; live_new_bytes -= h->size; }
    }
    h->live = 0;
    memset(&shadow_of(u), SH_FREED, (h->cap + 15) / 16);
    memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
    if (h->zone == 1 && h->back == sizeof(Hdr)) {
        if (((qhead + 1) & (QCAP - 1)) == (qtail & (QCAP - 1)) || qbytes > QLIMIT) {
            while (qtail != qhead && (qbytes > QLIMIT / 2 || ((qhead + 1) & (QCAP - 1)) == (qtail & (QCAP - 1)))) {
                uintptr_t v = quar[qtail]; qtail = (qtail + 1) & (QCAP - 1);
                Hdr* o = (Hdr*)(v - sizeof(Hdr));
                qbytes -= o->cap;
                int cls; round_class(o->cap, cls);
                *(uintptr_t*)v = freelist[cls]; freelist[cls] = v;
            }
        }
        quar[qhead] = u; qhead = (qhead + 1) & (QCAP - 1); qbytes += h->cap;
    }
}
}  // namespace

namespace simi {
void heap_begin_run() { zone_ = 1; seq_ = 0; live_new_count = live_new_bytes = 0; fail_nth = -1; }
bool heap_lock_check(uintptr_t a) {
    if (a - ARENA >= ARENA_SIZE) return true;
    return shadow_of(a) != SH_FREED;
}
static Hdr* find_block(uintptr_t a) {
    // walk back over the shadow to the header; blocks are contiguous
    uintptr_t g = a & ~uintptr_t(15);
    for (uintptr_t i = g; i > ARENA && g - i < (64ull << 20); i -= 16) {
        Hdr* h = (Hdr*)(i - sizeof(Hdr));
        if (h->magic == MAGIC && h->cap && i + h->cap + 16 > a) return h;
    }
    return nullptr;
}
void heap_describe(uintptr_t a, char* out, size_t n) {
    Hdr* h = find_block(a);
    if (!h) { vformat(out, n, "address %p (no block)", (void*)a); return; }
    uintptr_t u = (uintptr_t)h + sizeof(Hdr);
    vformat(out, n, "%s block #%u of %lu bytes at offset %ld, allocated by T%d at %p < %p < %p",
            h->live ? "live" : "freed", h->seq, (unsigned long)h->size, long(a - u), int(h->tid), h->site[0], h->site[1], h->site[2]);
}
void bad_access(uintptr_t a, unsigned size, bool write, void* pc) {
    char b[900];
    heap_describe(a, b, sizeof b);
    uint8_t s = shadow_of(a);
    g_active = true;
    sim::violate(s == SH_FREED ? "use-after-free" : "heap-overflow", "%s of %u bytes at %p: %s", write ? "write" : "read", size, pc, b);
}
bool alloc_should_fail() {
    if (fail_nth < 0 || !g_faults_on || !g_active || !cur || !(cur->worker || cur->allocfaults) || cur->nopreempt) return false;
    if (fail_nth > 0) { --fail_nth; return false; }
    if (--fail_burst <= 0) fail_nth = -1;
    sim::note_fault("alloc");
    return true;
}
}  // namespace simi

namespace sim {
void fault_alloc(int64_t nth, int burst) { fail_nth = nth; fail_burst = burst; }
bool fault_pending() { return fail_nth >= 0; }
Heap heap_live() { return {live_new_count, live_new_bytes}; }
uint64_t heap_mark() { return seq_; }
static Hdr* next_block(uintptr_t& pos) {
    while (pos < bump_[1]) {
        Hdr* h = (Hdr*)pos;
        if (h->magic == MAGIC) {
            uintptr_t u = pos + sizeof(Hdr);
            pos = (u + h->cap + 16 + 15) & ~uintptr_t(15);
            return h;
        }
        pos += 16;
    }
    return nullptr;
}
Heap heap_since(uint64_t mark) {
    Heap r{0, 0};
    uintptr_t pos = ARENA + HARNESS_SIZE;
    while (Hdr* h = next_block(pos))
        if (h->live && h->is_new && h->seq > mark) { ++r.count; r.bytes += h->size; }
    return r;
}
void heap_report(uint64_t mark, int max) {
    uintptr_t pos = ARENA + HARNESS_SIZE;
    while (Hdr* h = next_block(pos)) {
        if (h->live && h->is_new && h->seq > mark && max-- > 0)
            trace("live block #%u %lu bytes by T%d at %p < %p < %p", h->seq, (unsigned long)h->size, int(h->tid), h->site[0], h->site[1], h->site[2]);
    }
}
bool heap_is_live(const void* p) { Hdr* h = hdr_of((void*)p); return h && h->live; }
}  // namespace sim

// ---- libc entry points ---------------------------------------------------
extern "C" {
void* malloc(size_t n) { void* p = do_alloc(n, 16, false); if (!p) errno = ENOMEM; return p; }
void free(void* p) { do_free(p); }
void* calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = do_alloc(n, 16, false);
    if (p) memset(p, 0, n); else errno = ENOMEM;
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { free(p); return nullptr; }
    Hdr* h = hdr_of(p);
    if (!h) return nullptr;
    void* q = do_alloc(n, 16, h->is_new);
    if (!q) { errno = ENOMEM; return nullptr; }
    memcpy(q, p, h->size < n ? h->size : n);
    do_free(p);
    return q;
}
void* reallocarray(void* p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return realloc(p, n);
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al, false); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al, false); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = do_alloc(n, al, false); if (!p) return ENOMEM; *out = p; return 0; }
void* valloc(size_t n) { return do_alloc(n, 4096, false); }
void* pvalloc(size_t n) { return do_alloc((n + 4095) & ~size_t(4095), 4096, false); }
size_t malloc_usable_size(void* p) { Hdr* h = hdr_of(p); return h ? h->size : 0; }
void cfree(void* p) { do_free(p); }
}

static void* op_new(size_t n, size_t al, bool nothrow) {
    if (unlikely(alloc_should_fail())) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = do_alloc(n ? n : 1, al, true);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    // uninitialised memory differs from block to block (deterministically), so
    // that a result that depends on it differs from its reference computation
    if (g_active) memset(p, 0x2f + int((seq_ * 0x9E3779B97F4A7C15ull) >> 60), n < 4096 ? n : 4096);
    return p;
}
void* operator new(size_t n) { return op_new(n, 16, false); }
void* operator new[](size_t n) { return op_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, size_t(a), false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return op_new(n, size_t(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return op_new(n, size_t(a), true); }
void operator delete(void* p) noexcept { do_free(p); }
void operator delete[](void* p) noexcept { do_free(p); }
void operator delete(void* p, size_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t) noexcept { do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p); }
