// Deterministic simulator runtime: public interface for scenarios.
//
// One process run = one simulated execution.  All threads of the program under
// test are real OS threads, but exactly one of them holds the baton at any time;
// who runs next is decided here, from one seed (search) or from a recorded list
// of decisions (replay).  Clock, sleeping, locks, condition variables, once,
// futexes, thread creation, heap and disk calls are all behind this seam.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

struct Rng {                       // splitmix64 / xorshift: no global state
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 11) % n) : 0; }
    int range(int lo, int hi) { return lo + int(below(uint32_t(hi - lo + 1))); }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return unit() < p; }
};

// One step of a workload, one injected fault, or one configuration knob.
struct Op {
    int thr = 0;                   // logical client that performs it (-1: config/fault)
    char name[28] = {0};
    int64_t a[8] = {0};
    bool is(const char* n) const { return __builtin_strcmp(name, n) == 0; }
};

struct Plan {
    std::vector<Op> ops;
    Op& add(int thr, const char* name, std::initializer_list<int64_t> args = {});
    int64_t cfg(const char* name, int64_t dflt = 0) const;   // first op with that name and thr==-1
};

struct Scenario {
    const char* name;
    void (*gen)(Rng&, Plan&);      // seed -> plan (runs outside the simulated heap)
    void (*run)(const Plan&);      // executes the plan inside the simulation
    const char* rule;              // what counts as a non-trivial run
};
void register_scenario(const Scenario& s);
struct Registrar { explicit Registrar(const Scenario& s) { register_scenario(s); } };

// ---- oracle side ------------------------------------------------------
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void check(bool ok, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
void known(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name);      // counts that a rare condition was reached
void nontrivial();                 // marks this run as non-trivial
uint64_t seq();                    // global event sequence number (strictly increases)
uint64_t now_ns();                 // simulated monotonic time
int tid();                         // simulated thread id of the caller
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // history note, in replay output

struct AllocFaults { AllocFaults(); ~AllocFaults(); };  // allocation failures may hit this thread here
struct NoPreempt { NoPreempt(); ~NoPreempt(); };   // oracle section: no scheduling decision inside

// ---- workload side ----------------------------------------------------
int spawn(std::function<void()> body);     // a client thread (never fault injected)
void join(int id);
void join_all();                           // every client started with spawn()
void point(const char* what);              // explicit scheduling point
void set_horizon(uint64_t max_points, uint64_t max_sim_ns);   // liveness budget

void set_density(double factor);           // scales how often threads are preempted between synchronisation operations

// ---- faults -----------------------------------------------------------
void fault_thread_create(int nth);         // n-th thread creation by the code under test fails (0 = next)
void fault_alloc(int64_t nth, int burst);  // n-th operator new in pool workers throws bad_alloc
void fault_clock_jump(int64_t at_ns, int64_t delta_ns);  // wall clock jumps
void fault_enable(bool on);                // faults only fire while enabled
bool fault_pending();
uint64_t fault_fired(const char* kind);
uint64_t fault_fired_total();
void note_fault(const char* kind);

// ---- heap accounting --------------------------------------------------
struct Heap { uint64_t count, bytes; };
Heap heap_live();                          // live operator-new blocks of this run
uint64_t heap_mark();                      // blocks allocated after this mark ...
Heap heap_since(uint64_t mark);            // ... and still live
void heap_report(uint64_t mark, int max);  // trace their allocation sites
bool heap_is_live(const void* p);
bool in_worker();                          // caller is a thread created by the code under test

// ---- simulated disk ---------------------------------------------------
// Files below the scratch directory; faults addressed by the index of the
// operation since io_arm().
enum IoFault { IO_NONE = 0, IO_EIO = 1, IO_ENOSPC = 2, IO_SHORT = 3, IO_EINTR = 4, IO_STICKY = 16 };
const char* scratch();                     // per-run scratch directory (created on demand)
void io_arm(int64_t nth, int kind);        // several may be armed
void io_disarm();
uint64_t io_ops();                         // disk operations seen since io_arm/io_reset
uint64_t io_fired();
void io_reset();
void io_crash_at(int64_t nth);               // copy of every open file as <name>.crash at that operation
bool io_crashed();
int io_decide(const char* what, bool writes);   // a library call as one disk operation: 0 or a fault kind
bool io_suspend(bool on);                   // no faults while suspended; returns the former state
void io_lose_half(const char* path);         // the second half of a file never reached the disk
bool io_writing(const char* path);           // some descriptor of that file is open for writing
int open_fds();                            // descriptors below the scratch directory

// number of scheduling points so far
uint64_t points();
}  // namespace sim
