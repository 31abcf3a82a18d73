// Thread pool, tasks and the shared pool: C01, C02, C03, C04, C05 (pool part).
#include "common.h"
#include <usml/threads/thread_controller.h>
#include <usml/threads/thread_pool.h>
#include <usml/threads/thread_task.h>
#include <new>
#include <stdexcept>

using namespace usml::threads;
namespace {

// What the harness knows about one task (outlives the task object).
struct Rec {
    int kind = 0, arg = 0;
    int runs = 0, started = 0, finished = 0;
    uint64_t ctor_begin = 0, ctor_end = 0;
    uint64_t sub_begin = 0, sub_end = 0;      // run() called / returned
    uint64_t start_seq = 0, end_seq = 0;
    bool submitted = false, destroyed = false;
    uint64_t destroy_seq = 0;
    bool pool_gone = false;                   // the pool it was given to has been destroyed
    size_t id = 0;
    int pool = 0;
    std::weak_ptr<thread_task> weak;
};
struct World {
    std::vector<Rec*> recs;
    int running[64] = {0}, max_running[64] = {0};
    int pool_size[64] = {0};
    bool gone[64] = {false};
    bool gate = false, stop = false;
    int body_throw = 0;
    bool order_check = false, bound_check = false;
    thread_pool* cur_pool = nullptr;
    int cur_index = 0;
} *w;

enum Kind { QUICK, STEPS, THROW_STD, THROW_INT, ALLOC, SLEEPER, BLOCKER, PARENT, PARENT_SHARED, NKIND,
            CHAIN /* hands a successor to its pool before it ends, for ever */ };

thread_pool* shared_pool() { return thread_controller::instance(); }
void submit(thread_pool* p, int pool, const thread_task::ref& t, Rec* r);

struct Base {                                  // bases are destroyed after the members of Task
    Rec* r;
    explicit Base(Rec* r) : r(r) { sim::NoPreempt n; r->ctor_begin = sim::seq(); }
    ~Base() { sim::NoPreempt n; r->destroyed = true; r->destroy_seq = sim::seq(); }
};

class Task : private Base, public thread_task {
   public:
    explicit Task(Rec* r) : Base(r) {
        sim::NoPreempt n;
        r->ctor_end = sim::seq();
        r->id = id();
    }
    Rec* rec() { return r; }
    void run() override {
        {
            sim::NoPreempt n;
            r->start_seq = sim::seq();
            sim::check(++r->runs == 1, "exactly-once", "task %zu started %d times", r->id, r->runs);
            sim::check(r->sub_begin != 0, "exactly-once", "task %zu runs although it was never submitted", r->id);
            sim::check(!w->gone[r->pool], "runs-after-shutdown", "task %zu starts after its pool was destroyed", r->id);
            int k = ++w->running[r->pool];
            if (k > w->max_running[r->pool]) w->max_running[r->pool] = k;
            sim::trace("task %zu starts in pool %d", r->id, r->pool);
            if (w->bound_check) sim::check(k <= w->pool_size[r->pool], "bound", "%d tasks run at once in a pool of %d threads", k, w->pool_size[r->pool]);
            // submitted (run() returned) before this one was handed over, yet not started
            int before = 0;
            for (Rec* o : w->recs)
                if (o != r && o->pool == r->pool && o->submitted && o->sub_end < r->sub_begin && !o->start_seq) ++before;
            if (w->order_check) sim::check(before <= w->pool_size[r->pool] - 1, "order", "task %zu starts although %d tasks submitted before it have not (pool of %d)",
                       r->id, before, w->pool_size[r->pool]);
        }
        struct End {                            // the body ends, normally or not
            Rec* r;
            ~End() {
                sim::NoPreempt n;
                r->finished = 1; r->end_seq = sim::seq();
                --w->running[r->pool];
                sim::check(!w->gone[r->pool], "runs-after-shutdown", "task %zu still runs after its pool was destroyed", r->id);
            }
        } end{r};
        switch (r->kind) {
            case STEPS: for (int i = 0; i < r->arg; ++i) sim::point("work"); break;
            case THROW_STD: sim::point("work"); sim::probe("task throws"); throw std::runtime_error("task failure");
            case THROW_INT: sim::probe("task throws non-exception"); throw 42;
            case ALLOC: {
                std::vector<std::unique_ptr<int>> v;
                for (int i = 0; i < 1 + r->arg; ++i) v.emplace_back(new int(i));
                break;
            }
            case SLEEPER: sleep(1 + r->arg); break;
            case BLOCKER: while (!w->gate) sleep(1); break;
            case PARENT: case PARENT_SHARED: {
                Rec* c;
                { sim::NoPreempt n; c = new Rec; c->kind = r->arg % 2 ? QUICK : STEPS; c->arg = 2; c->pool = r->pool; w->recs.push_back(c); }
                thread_task::ref t(new Task(c));
                { sim::NoPreempt n; c->weak = t; }
                if (r->kind == PARENT) submit(w->cur_pool, r->pool, t, c);
                else submit(nullptr, -1, t, c);
                break;
            }
            case CHAIN: {
                sleep(1);
                if (w->stop) break;
                Rec* c;
                { sim::NoPreempt n; c = new Rec; c->kind = CHAIN; c->pool = r->pool; w->recs.push_back(c); }
                thread_task::ref t(new Task(c));
                { sim::NoPreempt n; c->weak = t; }
                if (w->cur_pool) submit(w->cur_pool, r->pool, t, c); else submit(nullptr, -1, t, c);
                break;
            }
            default: break;
        }
    }
};

void submit(thread_pool* p, int pool, const thread_task::ref& t, Rec* r) {
    { sim::NoPreempt n; r->pool = pool; }
    if (!p) {
        p = shared_pool();
        sim::NoPreempt n; r->pool = pool = w->cur_index;
    }
    { sim::NoPreempt n; r->sub_begin = sim::seq(); }
    p->run(t);
    { sim::NoPreempt n; r->submitted = true; r->sub_end = sim::seq(); sim::trace("task %zu submitted", r->id); }
}
// Makes a task and hands it over; an injected allocation failure is a legal refusal.
thread_task::ref make(int kind, int arg, int pool, Rec** out = nullptr) {
    Rec* r;
    { sim::NoPreempt n; r = new Rec; r->kind = kind; r->arg = arg; r->pool = pool; w->recs.push_back(r); }
    thread_task::ref t(new Task(r));
    { sim::NoPreempt n; r->weak = t; }
    if (out) *out = r;
    return t;
}
// many tasks one after the other
void burst(const sim::Op& o, thread_pool* p, int pool) {
    for (int64_t i = 0; i < o.a[0]; ++i) { Rec* r; auto t = make(i % 7 ? QUICK : STEPS, int(i % 3), pool, &r); submit(p, pool, t, r); }
    sim::probe("burst of tasks");
}
uint64_t bursts(const sim::Plan& p, uint64_t points) {
    for (auto& o : p.ops) if (o.is("burst")) points += uint64_t(o.a[0]) * 1000;
    return points + 5000 * uint64_t(p.cfg("size", 2));
}
size_t unfinished() {            // created, neither finished nor discarded
    size_t n = 0;
    for (Rec* r : w->recs) if (r->ctor_end && !r->finished && !r->destroyed) ++n;
    return n;
}
// wait() may only return when every task constructed before the call is done
void do_wait(int64_t limit) {
    std::vector<Rec*> before;
    uint64_t t0;
    { sim::NoPreempt n; t0 = sim::now_ns(); for (Rec* r : w->recs) if (r->ctor_end && !r->destroyed) before.push_back(r); }
    bool timeout = false;
    try { thread_task::wait(limit); } catch (const std::range_error&) { timeout = true; }
    sim::NoPreempt n;
    if (timeout) {
        sim::probe("wait timed out");
        sim::check(limit > 0, "wait", "wait without a limit reported the limit exceeded");
        sim::check(sim::now_ns() - t0 >= uint64_t(limit) * 1000000ull, "wait", "wait(%ld) gave up after %.3f ms", long(limit), double(sim::now_ns() - t0) / 1e6);
    } else {
        for (Rec* r : before)
            sim::check(r->finished || r->destroyed, "wait", "wait returned while task %zu, created before it, has not finished", r->id);
        sim::probe("wait returned");
    }
}
// drop every reference to unfinished work, then the accounting must be exact
void final_checks(bool all_ran, const char* when) {
    sim::NoPreempt n;
    for (Rec* r : w->recs) {
        if (!r->ctor_end) continue;
        if (all_ran && r->submitted) sim::check(r->runs == 1 && r->finished, "exactly-once", "%s: task %zu was submitted but ran %d times", when, r->id, r->runs);
        sim::check(r->runs <= 1, "exactly-once", "%s: task %zu ran %d times", when, r->id, r->runs);
        sim::check(r->runs == r->finished, "runs-after-shutdown", "%s: task %zu was started and has not finished", when, r->id);
        sim::check(r->weak.expired(), "release", "%s: task %zu is still referenced", when, r->id);
    }
    sim::check(thread_task::num_active() == 0, "active-count", "%s: %zu tasks counted as active, none exist", when, thread_task::num_active());
}
// lower bound on the counter at any instant
void check_active() {
    sim::NoPreempt n;
    size_t k = thread_task::num_active(), u = unfinished();
    size_t created = 0; for (Rec* r : w->recs) created += r->ctor_begin != 0;
    sim::check(k >= u && k <= created, "active-count", "active count %zu, but %zu tasks are unfinished and %zu were ever created", k, u, created);
}

// ---------------------------------------------------------------- C01 ----
int any_size(sim::Rng& r) { return r.chance(0.04) ? r.range(5, 24) : r.range(1, 4); }
int64_t any_burst(sim::Rng& r) { return 1 << r.range(4, 8); }          // more tasks than anybody would plan one by one
void gen_tasks(sim::Rng& r, sim::Plan& p) {
    p.add(-1, "size", {any_size(r)});
    p.add(-1, "end", {r.range(0, 2)});            // 0: wait then destroy; 1: destroy; 2: timed wait, then wait
    if (r.chance(0.5)) p.add(-1, "alloc", {r.range(0, 30), r.range(1, 4)});
    if (r.chance(0.3)) p.add(-1, "jump", {int64_t(1000000000) + r.range(0, 20000000), (r.chance(0.5) ? 1 : -1) * int64_t(r.range(1, 4000)) * 1000000});
    int clients = r.range(1, 3);
    for (int c = 0; c < clients; ++c) {
        int n = r.range(1, 7);
        for (int i = 0; i < n; ++i) {
            int k = r.range(0, 20);
            if (k < 14) { int kind = r.range(0, NKIND - 2); if (kind == BLOCKER) kind = QUICK; p.add(c, "submit", {kind, r.range(0, 6), r.range(0, 1)}); }
            else if (k < 16) p.add(c, "discard", {});
            else if (k < 18) p.add(c, "count", {});
            else if (k < 19) p.add(c, "wait", {0});
            else if (k < 20) p.add(c, "wait", {r.range(1, 30)});
            else p.add(c, "abort", {r.range(0, 5)});
        }
    }
    if (r.chance(0.03)) p.add(r.below(uint32_t(clients)), "burst", {any_burst(r) + r.range(0, 20)});
}
void run_tasks(const sim::Plan& p) {
    sim::set_horizon(bursts(p, 120000), 0);
    w = new World;
    int size = int(p.cfg("size", 2)), end = int(p.cfg("end", 0));
    w->pool_size[1] = size; w->cur_index = 1;
    size_t base = thread_task::num_active();
    sim::check(base == 0, "active-count", "active count starts at %zu", base);
    auto* pool = new thread_pool(unsigned(size));
    w->cur_pool = pool;
    for (auto& o : p.ops) {
        if (o.thr == -1 && o.is("alloc")) sim::fault_alloc(o.a[0], int(o.a[1]));
        if (o.thr == -1 && o.is("jump")) sim::fault_clock_jump(o.a[0], o.a[1]);
    }
    bool any = false;
    for (auto& o : p.ops) any |= o.is("submit");
    if (any) sim::nontrivial();
    // a waiter inside a client must not hold a task it created but did not submit
    run_clients(p, [&](int, const sim::Op& o) {
        if (o.is("submit")) {
            Rec* r; auto t = make(int(o.a[0]), int(o.a[1]), 1, &r);
            submit(pool, 1, t, r);
            if (o.a[2]) { sim::point("hold"); }
        } else if (o.is("burst")) {
            burst(o, pool, 1);
        } else if (o.is("discard")) {
            auto t = make(QUICK, 0, 1);
            check_active();
            t.reset();
        } else if (o.is("count")) {
            check_active();
        } else if (o.is("wait")) {
            do_wait(o.a[0]);
        } else if (o.is("abort")) {
            std::shared_ptr<thread_task> t;
            { sim::NoPreempt n; size_t k = size_t(o.a[0]); if (k < w->recs.size()) t = w->recs[k]->weak.lock(); }
            if (t) t->abort();
        }
    });
    bool all_ran = true;
    if (end == 1) all_ran = false;
    if (end == 2) { do_wait(3); do_wait(0); }
    if (end == 0) do_wait(0);
    if (all_ran) {
        sim::NoPreempt n;
        sim::check(thread_task::num_active() == 0, "active-count", "%zu tasks counted as active after wait", thread_task::num_active());
    }
    delete pool;
    { sim::NoPreempt n; w->gone[1] = true; }
    final_checks(all_ran, "at the end");
}
sim::Registrar r1({"pool-tasks", gen_tasks, run_tasks, "at least one task was submitted to a pool while clients, workers and faults interleave"});

// ---------------------------------------------------------------- C02 ----
// one owner; the pool is destroyed or the shared pool reset at an arbitrary moment
void gen_shutdown(sim::Rng& r, sim::Plan& p) {
    p.add(-1, "size", {any_size(r)});
    int steps = r.range(1, 8);
    bool shared = r.chance(0.6);
    p.add(-1, "shared", {shared});
    for (int i = 0; i < steps; ++i) {
        int k = r.range(0, 11);
        if (r.chance(0.01)) p.add(0, "burst", {any_burst(r) + r.range(0, 20)});
        if (k < 6) { int kind = r.range(0, NKIND - 1); if (kind == BLOCKER && r.chance(0.5)) kind = SLEEPER; if (!shared && kind == PARENT_SHARED) kind = PARENT; if (shared && kind == PARENT) kind = PARENT_SHARED; if (r.chance(0.12)) kind = CHAIN; p.add(0, "submit", {kind, r.range(0, 6), r.range(0, 1)}); }
        else if (k < 7) p.add(0, "sleep", {r.range(1, 8)});
        else if (k < 8) p.add(0, "point", {});
        else if (k < 11) p.add(0, "reset", {r.range(1, 5), r.chance(0.35) ? r.range(0, 4) : -1});
        else p.add(0, "gate", {});
    }
    p.add(0, "reset", {r.range(1, 5), r.chance(0.35) ? r.range(0, 4) : -1});
}
std::vector<thread_task::ref> held;
void gate_opener() { for (int i = 0; i < 3; ++i) sim_sleep_ms(4); w->gate = true; }

void run_shutdown(const sim::Plan& p) {
    sim::set_horizon(bursts(p, 20000), 0);
    w = new World;
    bool shared = p.cfg("shared", 0);
    int idx = 1, size = int(p.cfg("size", 2));
    thread_pool* own = nullptr;
    uint64_t mark = sim::heap_mark();
    (void)mark;
    w->pool_size[1] = size; w->cur_index = 1;
    if (shared) thread_controller::reset(unsigned(size)); else own = new thread_pool(unsigned(size));
    w->cur_pool = own;
    bool blockers = false;
    for (auto& o : p.ops) if (o.is("submit") && o.a[0] == BLOCKER) blockers = true;
    if (blockers) sim::spawn(gate_opener);
    each_op(p, 0, [&](const sim::Op& o) {
        if (o.is("submit")) {
            Rec* r; auto t = make(int(o.a[0]), int(o.a[1]), idx, &r);
            submit(shared ? nullptr : own, idx, t, r);
            if (o.a[2]) held.push_back(t);
        } else if (o.is("burst")) burst(o, shared ? nullptr : own, idx);
        else if (o.is("sleep")) sim_sleep_ms(int(o.a[0]));
        else if (o.is("point")) sim::point("owner");
        else if (o.is("gate")) w->gate = true;
        else if (o.is("reset") && idx < 60) {
            int n = int(o.a[0]), fail = int(o.a[1]);
            sim::nontrivial();
            std::vector<Rec*> mine;
            { sim::NoPreempt np; for (Rec* r : w->recs) if (r->pool == idx && r->submitted) mine.push_back(r); }   // others may still land in the next pool
            if (shared) {
                // children submitted by running tasks may land in either pool
                { sim::NoPreempt np; w->pool_size[idx + 1] = n; }
                // tasks that call instance() now get one of the two
                if (fail >= 0) sim::fault_thread_create(fail);
                uint64_t f0 = sim::fault_fired("thread-create");
                bool threw = false;
                int old = w->pool_size[idx];
                { sim::NoPreempt np; w->pool_size[idx] = old > n ? old : n; }   // bound checked per pool below
                try { thread_controller::reset(unsigned(n)); } catch (const std::exception&) { threw = true; }
                bool injected = sim::fault_fired("thread-create") > f0;
                sim::fault_thread_create(-1);
                sim::check(threw == injected, "create-failure", "resetting the pool %s although thread creation %s", threw ? "failed" : "succeeded", injected ? "failed" : "worked");
                if (threw) {
                    sim::probe("reset failed");
                    sim::NoPreempt np; w->pool_size[idx] = old;
                } else {
                    sim::NoPreempt np;
                    for (Rec* r : mine) sim::check(!r->start_seq || r->finished, "runs-after-shutdown", "reset returned while task %zu is running", r->id);
                    for (Rec* r : mine) if (!r->start_seq && r->submitted) r->pool_gone = true;
                    w->pool_size[idx] = n;
                }
            } else {
                delete own; own = nullptr;
                {
                    sim::NoPreempt np;
                    for (Rec* r : w->recs) if (r->pool == idx) sim::check(!r->start_seq || r->finished, "runs-after-shutdown", "destructor returned while task %zu is running", r->id);
                    w->gone[idx] = true;
                    ++idx;
                    w->pool_size[idx] = n; w->cur_index = idx;
                }
                while (!own) {
                    if (fail >= 0) sim::fault_thread_create(fail);
                    uint64_t f0 = sim::fault_fired("thread-create");
                    try { own = new thread_pool(unsigned(n)); } catch (const std::exception&) { sim::probe("construction failed"); }
                    bool injected = sim::fault_fired("thread-create") > f0;
                    sim::fault_thread_create(-1);
                    sim::check((own == nullptr) == injected, "create-failure", "constructing a pool %s although thread creation %s", own ? "succeeded" : "failed", injected ? "failed" : "worked");
                    fail = -1;
                }
                w->cur_pool = own;
            }
        }
    });
    // the pool in use still works
    {
        Rec* r; auto t = make(QUICK, 0, idx, &r);
        submit(shared ? nullptr : own, idx, t, r);
        while (!r->finished) sim_sleep_ms(1);
    }
    if (shared) { w->stop = true; sim_sleep_ms(3); thread_controller::reset(1); }
    else delete own;
    if (shared) { // children that were submitted last may still sit in the new pool
        thread_controller::reset(1);
    }
    w->gate = true;
    sim::join_all();
    // tasks dropped unrun: released (apart from what the owner holds) and not counted
    {
        sim::NoPreempt np;
        size_t alive = 0;
        for (Rec* r : w->recs) if (r->ctor_end && !r->destroyed && !r->finished) ++alive;
        size_t hold = 0;
        for (auto& t : held) { Rec* r = static_cast<Task*>(t.get())->rec(); if (!r->finished) ++hold; }
        sim::check(alive == hold, "release", "%zu dropped tasks are still alive, %zu of them held by their owner", alive, hold);
    }
    held.clear();
    final_checks(false, "after shutdown");
}
sim::Registrar r2({"pool-shutdown", gen_shutdown, run_shutdown, "at least one pool was destroyed or reset while tasks were queued, running or finishing"});

// ---------------------------------------------------------------- C03 ----
void gen_ids(sim::Rng& r, sim::Plan& p) {
    int clients = r.range(2, 5);
    for (int c = 0; c < clients; ++c) { int n = r.chance(0.01) ? r.range(20, 300) : r.range(1, 5); for (int i = 0; i < n; ++i) p.add(c, "create", {r.range(0, 2)}); }
    p.add(-1, "size", {r.range(1, 3)});
}
class Plain : public thread_task { public: void run() override {} };
void run_ids(const sim::Plan& p) {
    sim::set_horizon(60000, 0);
    static std::vector<std::vector<size_t>> ids(64);
    static std::vector<thread_task::ref> keep;
    thread_pool* pool = new thread_pool(unsigned(p.cfg("size", 1)));
    struct Maker : thread_task {
        int slot; explicit Maker(int s) : slot(s) {}
        void run() override {
            auto t = std::make_shared<Plain>();
            sim::NoPreempt n;
            ids[size_t(slot)].push_back(t->id());
        }
    };
    w = new World;
    int slot = 8;
    sim::nontrivial();
    run_clients(p, [&](int c, const sim::Op& o) {
        if (o.a[0] < 2) {
            auto t = std::make_shared<Plain>();
            sim::NoPreempt n;
            ids[size_t(c)].push_back(t->id());
            if (o.a[0] == 1) keep.push_back(t);
        } else {
            int s; { sim::NoPreempt n; s = slot++; if (slot > 60) slot = 60; }
            auto t = std::make_shared<Maker>(s);
            { sim::NoPreempt n; ids[size_t(c)].push_back(t->id()); }
            pool->run(t);
        }
    });
    delete pool;
    std::set<size_t> all;
    for (auto& v : ids) {
        for (size_t i = 0; i < v.size(); ++i) {
            sim::check(all.insert(v[i]).second, "unique", "identifier %zu was given to two tasks", v[i]);
            if (i && &v < &ids[8]) sim::check(v[i] > v[i - 1], "increasing", "a thread created task %zu after task %zu", v[i], v[i - 1]);
        }
    }
    keep.clear();
}
sim::Registrar r3({"task-ids", gen_ids, run_ids, "at least two threads create tasks at once"});

// ---------------------------------------------------------------- C04 ----
void gen_order(sim::Rng& r, sim::Plan& p) {
    int size = r.chance(0.4) ? 1 : r.chance(0.04) ? r.range(6, 24) : r.range(2, 5);
    p.add(-1, "size", {size});
    int block = r.range(0, size - 1);
    p.add(-1, "block", {block});
    int clients = r.range(1, 3);
    for (int c = 0; c < clients; ++c) {
        int n = r.range(1, 8);
        for (int i = 0; i < n; ++i) {
            int k = r.range(0, 9);
            if (k == 9) p.add(c, "sleep", {r.range(1, 4)});
            else p.add(c, "submit", {r.chance(0.2) ? THROW_STD : r.chance(0.15) ? SLEEPER : r.chance(0.5) ? STEPS : QUICK, r.range(0, 5)});
        }
    }
    if (r.chance(0.03)) p.add(r.below(uint32_t(clients)), "burst", {any_burst(r) + r.range(0, 20)});
}
void run_order(const sim::Plan& p) {
    sim::set_horizon(bursts(p, 120000), 0);
    w = new World;
    w->order_check = w->bound_check = true;
    int size = int(p.cfg("size", 2)), block = int(p.cfg("block", 0));
    w->pool_size[1] = size; w->cur_index = 1;
    auto* pool = new thread_pool(unsigned(size));
    w->cur_pool = pool;
    sim::nontrivial();
    for (int i = 0; i < block; ++i) { Rec* r; auto t = make(BLOCKER, 0, 1, &r); submit(pool, 1, t, r); }
    run_clients(p, [&](int, const sim::Op& o) {
        if (o.is("sleep")) { sim_sleep_ms(int(o.a[0])); return; }
        if (o.is("burst")) { burst(o, pool, 1); return; }
        Rec* r; auto t = make(int(o.a[0]), int(o.a[1]), 1, &r);
        submit(pool, 1, t, r);
    });
    // everything else finishes while the blockers still hold their workers
    for (;;) {
        bool done = true;
        { sim::NoPreempt n; for (Rec* r : w->recs) if (r->kind != BLOCKER && !r->finished) done = false; }
        if (done) break;
        sim_sleep_ms(1);
    }
    // and the pool really uses all of its threads
    int extra = size - block;
    std::vector<Rec*> more;
    for (int i = 0; i < extra + 2; ++i) { Rec* r; auto t = make(BLOCKER, 0, 1, &r); submit(pool, 1, t, r); more.push_back(r); }
    while (w->running[1] < size) sim_sleep_ms(1);
    sim::check(w->running[1] == size, "bound", "%d tasks run in a pool of %d", w->running[1], size);
    w->gate = true;
    do_wait(0);
    delete pool;
    w->gone[1] = true;
    final_checks(true, "at the end");
}
sim::Registrar r4({"pool-order", gen_order, run_order, "tasks were submitted to a pool some of whose workers may be blocked"});

// ---------------------------------------------------------------- C05 ----
void gen_single(sim::Rng& r, sim::Plan& p) {
    int rounds = r.range(1, 3);
    p.add(-1, "first", {r.range(0, 1)});
    for (int i = 0; i < rounds; ++i) p.add(-2, "round", {r.range(2, 5), r.range(1, 4), r.chance(0.25) ? r.range(0, 3) : -1});
}
void run_single(const sim::Plan& p) {
    sim::set_horizon(120000, 0);
    w = new World;
    int k = 0;
    for (auto& o : p.ops) {
        if (o.thr != -2) continue;
        int clients = int(o.a[0]), size = int(o.a[1]), fail = int(o.a[2]);
        int expect = 4;                     // the machine has 4 processors
        if (k || p.cfg("first")) {
            thread_controller::reset(unsigned(size));
            expect = size;
        }
        sim::nontrivial();
        static thread_pool* seen[16]; static bool threw[16];
        if (fail >= 0 && !k && !p.cfg("first")) sim::fault_thread_create(fail);
        for (int c = 0; c < clients; ++c) {
            seen[c] = nullptr; threw[c] = false;
            sim::spawn([c] { try { seen[c] = thread_controller::instance(); } catch (const std::exception&) { threw[c] = true; } });
        }
        sim::join_all();
        bool injected = sim::fault_fired("thread-create") > 0;
        sim::fault_thread_create(-1);
        int nt = 0;
        thread_pool* inst = thread_controller::instance();
        for (int c = 0; c < clients; ++c) {
            if (threw[c]) { ++nt; continue; }
            sim::check(seen[c] != nullptr, "singleton", "a caller received no pool");
            sim::check(seen[c] == inst, "singleton", "two callers received different pools");
        }
        sim::check(nt <= (injected && !k ? 1 : 0), "create-failure", "%d callers failed to get the pool", nt);
        // it has exactly the number of threads asked for
        int idx = 10 + k;
        { sim::NoPreempt n; w->pool_size[idx] = expect; w->cur_index = idx; w->gate = false; }
        for (int i = 0; i < expect + 2; ++i) { Rec* r; auto t = make(BLOCKER, 0, idx, &r); submit(nullptr, idx, t, r); }
        while (w->running[idx] < expect) sim_sleep_ms(1);
        for (int i = 0; i < 3; ++i) sim_sleep_ms(1);
        sim::check(w->running[idx] == expect, "pool-size", "%d tasks run in a pool of %d", w->running[idx], expect);
        w->gate = true;
        do_wait(0);
        ++k;
    }
    thread_controller::reset(1);
    final_checks(true, "at the end");
}
sim::Registrar r5({"pool-singleton", gen_single, run_single, "several threads ask for the shared pool at once"});
}  // namespace
