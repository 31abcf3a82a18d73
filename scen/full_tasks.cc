// Background generators that are aborted, fail or run out of memory (C14):
// no work when aborted before the start, bounded work and no publication when
// aborted while computing, and everything released when the task is gone.
#include "pipeline.h"
#include <new>
#include <stdexcept>
#include <usml/biverbs/biverb_generator.h>
#include <usml/rvbts/rvbts_generator.h>
#include <usml/ocean/volume_flat.h>
using namespace pl;
namespace {

enum Kind { WAVE = 0, BIVERB = 1, RVBTS = 2 };
enum Action { A_NONE = 0, A_ABORT = 1, A_THROW = 2, A_BADALLOC = 3, A_INT = 4, A_BEFORE = 5, A_HEAP = 6, A_EXTERN = 7 };

// every call of the environment by the task under observation
struct Hook {
    bool on = false;
    int64_t calls = 0, at = -1;
    int action = A_NONE;
    std::function<void()> abort;
    int64_t at_abort = -1;              // calls made when the abort was requested
    void hit() {
        if (!on) return;
        {
            sim::NoPreempt n;
            if (calls++ != at) return;
        }
        switch (action) {
            case A_ABORT: { sim::NoPreempt n; sim::note_fault("abort-while-computing"); at_abort = calls; } abort(); break;
            case A_THROW: { sim::NoPreempt n; sim::note_fault("exception-in-task"); } throw std::runtime_error("injected");
            case A_BADALLOC: { sim::NoPreempt n; sim::note_fault("exception-in-task"); } throw std::bad_alloc();
            case A_INT: { sim::NoPreempt n; sim::note_fault("exception-in-task"); } throw 42;
            default: break;
        }
    }
} *hook;

struct HookProfile : profile_linear {
    explicit HookProfile(double a) : profile_linear(1500.0, attenuation_model::csptr(new attenuation_constant(a))) {}
    void sound_speed(const wposition& l, matrix<double>* c, wvector* g = nullptr) const override { hook->hit(); profile_linear::sound_speed(l, c, g); }
};
struct HookScatter : scattering_model {
    double v; explicit HookScatter(double db) : v(std::pow(10.0, db / 10.0)) {}
    void scattering(const wposition1&, const seq_vector::csptr&, double, double, double, double, vector<double>* a) const override {
        hook->hit();
        for (size_t i = 0; i < a->size(); ++i) (*a)(i) = v;
    }
    void scattering(const wposition&, const seq_vector::csptr&, double, matrix<double>, double, matrix<double>, matrix<vector<double>>* a) const override {
        for (size_t i = 0; i < a->size1(); ++i) for (size_t j = 0; j < a->size2(); ++j) for (size_t k = 0; k < (*a)(i, j).size(); ++k) (*a)(i, j)(k) = v;
    }
};
struct HookBeam : bp_model {
    void beam_level(const bvector&, const seq_vector::csptr& f, vector<double>* level, const bvector&, double) const override {
        hook->hit();
        for (size_t i = 0; i < f->size(); ++i) (*level)(i) = 1.0;
    }
};
struct HeardWave : wavefront_listener {
    int n = 0; uint64_t digest = 0, at = 0;
    eigenray_collection::csptr rays; eigenverb_collection::csptr verbs;
    void update_wavefront_data(const sensor_model*, eigenray_collection::csptr r, eigenverb_collection::csptr v) override {
        sim::NoPreempt np; ++n; at = sim::seq(); Digest d; d.u(dig(*r)); d.u(dig(*v)); digest = d.h; rays = r; verbs = v;
    }
};
template <class T> struct HeardT : update_listener<std::shared_ptr<const T>> {
    int n = 0; uint64_t digest = 0, at = 0; std::shared_ptr<const T> last;
    void notify_update(const std::shared_ptr<const T>* o) override { sim::NoPreempt np; ++n; at = sim::seq(); digest = dig(**o); last = *o; }
};

struct World {
    ocean_model::csptr ocean;
    sensor_model::sptr sensor;
    sensor_pair::sptr pair;
    eigenverb_collection::csptr verbs;   // inputs of the later stages
    biverb_collection::csptr biverbs;
    HeardWave wave; HeardT<biverb_collection> bi; HeardT<rvbts_collection> ts;
    Fan fan; wposition tpos{1, 1}; matrix<uint64_t> ids{1, 1};
    double tmax = 0.4; bool empty_targets = false;
    transmit_list schedule;
} *w;

std::shared_ptr<thread_task> make_task(int kind) {
    switch (kind) {
        case WAVE: {
            auto t = std::make_shared<wavefront_generator>(w->sensor.get(), w->tpos, w->ids, freqs(), w->fan.de, w->fan.az, w->fan.step, w->tmax, 300.0, 999, 999, std::string());
            return t;
        }
        case BIVERB: {
            auto t = std::make_shared<biverb_generator>(w->pair, w->verbs, w->verbs);
            t->remove_listener(w->pair.get());
            t->add_listener(&w->bi);
            return t;
        }
        default: {
            auto t = std::make_shared<rvbts_generator>(w->pair, w->sensor, w->sensor, 0.1, w->biverbs, w->schedule);
            t->remove_listener(w->pair.get());
            t->add_listener(&w->ts);
            return t;
        }
    }
}
int heard(int kind) { return kind == WAVE ? w->wave.n : kind == BIVERB ? w->bi.n : w->ts.n; }
uint64_t digest(int kind) { return kind == WAVE ? w->wave.digest : kind == BIVERB ? w->bi.digest : w->ts.digest; }
uint64_t heard_at(int kind) { return kind == WAVE ? w->wave.at : kind == BIVERB ? w->bi.at : w->ts.at; }
void forget() { w->wave = HeardWave(); w->bi.n = w->ts.n = 0; w->bi.digest = w->ts.digest = 0; w->bi.last.reset(); w->ts.last.reset(); }

void gen(sim::Rng& r, sim::Plan& p) {
    p.add(-1, "density", {r.range(4, 10)});
    p.add(-1, "tmax", {r.range(1, 5)});
    p.add(-1, "volume", {r.chance(0.3)});
    p.add(-1, "weak", {r.chance(0.2)});           // some eigenverbs are too weak to be kept
    p.add(-1, "sched", {r.range(0, 3)});
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        int kind = r.range(0, 2);
        int action = r.chance(0.35) ? A_ABORT : r.chance(0.35) ? r.range(A_THROW, A_INT) : r.chance(0.35) ? A_HEAP : r.chance(0.4) ? A_EXTERN : r.chance(0.5) ? A_BEFORE : A_NONE;
        p.add(-1, "task", {kind, action, int64_t(r.next() >> 34), r.chance(0.5), r.range(0, 30)});
    }
}

void run(const sim::Plan& p) {
    sim::set_horizon(8000000, 0);
    sim::set_density(1.0 / double(1 << p.cfg("density", 6)));
    { sim::NoPreempt n; w = new World; hook = new Hook; }
    thread_controller::reset(2);
    boundary_model::csptr surface(new boundary_flat(0.0, reflect_loss_model::csptr(new reflect_loss_constant(0.0, M_PI)), scattering_model::csptr(new HookScatter(-30.0))));
    boundary_model::csptr bottom(new boundary_flat(-200.0, reflect_loss_model::csptr(new reflect_loss_constant(3.0)), scattering_model::csptr(new HookScatter(-27.0))));
    auto* oc = new ocean_model(surface, bottom, profile_model::csptr(new HookProfile(p.cfg("weak") ? 1.0 : 0.0)));
    if (p.cfg("volume")) oc->add_volume(volume_model::csptr(new volume_flat(100.0, 10.0, scattering_model::csptr(new HookScatter(-40.0)))));
    w->ocean.reset(oc);
    ocean_shared::update(w->ocean);
    w->tmax = 0.1 * double(p.cfg("tmax", 4));
    w->sensor = std::make_shared<sensor_model>(1, "s", 0, wposition1(36.0, 16.0, -90.0));
    bp_model::csptr beam(new HookBeam());
    w->sensor->src_beam(0, beam); w->sensor->rcv_beam(0, beam);
    w->sensor->compute_reverb(true);
    w->sensor->time_maximum(w->tmax);
    w->sensor->de_fan(w->fan.de); w->sensor->az_fan(w->fan.az); w->sensor->time_step(w->fan.step);
    w->tpos = wposition(wposition1(36.001, 16.001, -60.0));
    w->ids(0, 0) = 77;
    w->pair = std::make_shared<sensor_pair>(w->sensor, w->sensor);
    // the pair of this sensor is not registered as a listener of it: its own tasks are observed one by one
    w->sensor->remove_wavefront_listener(w->pair.get());
    w->sensor->add_wavefront_listener(&w->wave);
    w->schedule = make_schedule(int(p.cfg("sched", 1)));
    // a clean run of every stage: the reference results, and the warm-up of one-time allocations
    uint64_t want[3]; int64_t total[3];
    hook->on = true;
    auto inline_run = [&](int kind) {
        auto t = make_task(kind);
        hook->calls = 0; hook->at = -1;
        t->run();
        sim::check(heard(kind) == 1, "not-published", "an undisturbed task published %d times", heard(kind));
        sim::check(t->done(), "not-done", "a task that published is not done");
        want[kind] = digest(kind); total[kind] = hook->calls;
    };
    // calls made by the constructor and by each propagation step
    std::vector<int64_t> steps;
    {
        hook->calls = 0; hook->at = -1;
        wave_queue wave(w->ocean, freqs(), w->sensor->position(), w->fan.de, w->fan.az, w->fan.step, &w->tpos);
        eigenverb_collection verbs(w->ocean->num_volume());
        wave.add_eigenverb_listener(&verbs);
        steps.push_back(hook->calls);
        while (wave.time() < w->tmax) { wave.step(); steps.push_back(hook->calls); }
    }
    inline_run(WAVE); w->verbs = w->wave.verbs;
    inline_run(BIVERB); w->biverbs = w->bi.last;
    inline_run(RVBTS);
    if (num_verbs(*w->verbs)) sim::probe("eigenverbs not empty");
    if (num_biverbs(*w->biverbs)) sim::probe("bistatic eigenverbs not empty");
    forget();
    for (auto& o : p.ops) if (o.thr == -1 && o.is("task")) {
        sim::nontrivial();
        int kind = int(o.a[0]) % 3, action = int(o.a[1]); bool pool = o.a[3] != 0;
        hook->calls = 0; hook->at = total[kind] > 0 ? o.a[2] % total[kind] : 0; hook->action = action; hook->at_abort = -1;
        if (action == A_EXTERN || action == A_HEAP || action == A_BEFORE || action == A_NONE) hook->at = -1;
        bool escaped = false; uint64_t fired = sim::fault_fired("alloc");
        uint64_t mark = sim::heap_mark();
        uint64_t abort_inv = 0; bool done = false;
        std::weak_ptr<thread_task> ended;
        std::unique_ptr<thread_pool> own;
        if (pool || action == A_HEAP) own.reset(new thread_pool(2));
        {
            auto t = make_task(kind);
            ended = t;
            hook->abort = [&t] { t->abort(); };
            if (action == A_BEFORE) { sim::note_fault("abort-before-start"); t->abort(); }
            if (action == A_HEAP) sim::fault_alloc(o.a[2] % 4000, 1 + int(o.a[4] % 3));
            if (pool || action == A_HEAP) {
                own->run(t);
                if (action == A_EXTERN) {
                    sim_sleep_ms(int(o.a[4]));
                    for (int64_t i = 0; i < o.a[2] % 400; ++i) sim::point("later");
                    { sim::NoPreempt n; abort_inv = sim::seq(); sim::note_fault("abort-any-time"); }
                    t->abort();
                }
                thread_task::wait();
            } else {
                try { t->run(); } catch (std::exception&) { escaped = true; } catch (int) { escaped = true; }
            }
            done = t->done();
            hook->abort = nullptr;
        }
        sim::fault_alloc(-1, 0);
        // the worker that ran it may hold the last reference for a moment: end the workers
        own.reset();
        sim::check(ended.expired(), "task-kept", "a task is still referenced after it has ended");
        ended.reset();
        sim::NoPreempt np;
        bool alloc_fired = sim::fault_fired("alloc") != fired;
        bool reached = hook->at >= 0 && hook->calls > hook->at;
        switch (action) {
            case A_BEFORE:
                sim::check(hook->calls == 0, "work-after-abort", "task kind %d was aborted before it started but made %ld calls", kind, (long)hook->calls);
                sim::check(heard(kind) == 0 && !done, "published-after-abort", "task kind %d was aborted before it started but published", kind);
                break;
            case A_ABORT:
                if (!reached) break;
                sim::probe(kind == WAVE ? "wavefront aborted" : kind == BIVERB ? "biverb aborted" : "rvbts aborted");
                sim::check(heard(kind) == 0 && !done, "published-after-abort", "task kind %d published although it was aborted while computing (call %ld of %ld)", kind, (long)hook->at, (long)total[kind]);
                // one more propagation step, or the contributions of one more eigenverb, at most
                {
                    int64_t more = hook->calls - hook->at_abort, bound = kind == BIVERB ? 20 : 12;
                    if (kind == WAVE) {
                        size_t k = 0; while (k < steps.size() && steps[k] <= hook->at) ++k;
                        bound = k + 1 < steps.size() ? steps[k + 1] - hook->at_abort : total[kind];
                    }
                    sim::check(more <= bound, "work-after-abort", "task kind %d made %ld of %ld calls after it was told to abort", kind, (long)more, (long)total[kind]);
                }
                break;
            case A_THROW: case A_BADALLOC: case A_INT:
                if (!reached) break;
                sim::check(heard(kind) == 0 && !done, "published-after-failure", "task kind %d published although it failed", kind);
                break;
            case A_HEAP:
                if (!alloc_fired) sim::check(heard(kind) == 1, "not-published", "an undisturbed task published %d times", heard(kind));
                sim::check(heard(kind) == 0 || digest(kind) == want[kind], "wrong-result", "task kind %d published something else after a failed allocation", kind);
                break;
            case A_EXTERN:
                if (pool && heard(kind) == 0) sim::probe("aborted from another thread");
                [[fallthrough]];
            default: break;
        }
        sim::check(heard(kind) <= 1, "published-twice", "task kind %d published %d times", kind, heard(kind));
        if (heard(kind)) sim::check(digest(kind) == want[kind], "wrong-result", "task kind %d published something else than an undisturbed one", kind);
        if (action == A_NONE || (action == A_EXTERN && !pool)) sim::check(heard(kind) == 1, "not-published", "an undisturbed task published %d times", heard(kind));
        sim::check((heard(kind) > 0) == done || action == A_HEAP, "done-flag", "task kind %d %s but done() is %s", kind, heard(kind) ? "published" : "did not publish", done ? "true" : "false");
        (void)escaped; (void)abort_inv;
        // released: nothing that the task allocated is left once its results are dropped
        forget();
        // stage results that the pair keeps
        sim::Heap left = sim::heap_since(mark);
        if (left.count) sim::heap_report(mark, 6);
        sim::check(left.count == 0, "leak", "task kind %d (%s) left %lu blocks with %lu bytes behind", kind,
                   action == A_ABORT ? "aborted" : action == A_BEFORE ? "aborted before the start" : action == A_HEAP ? "out of memory" : action == A_EXTERN ? "aborted from another thread" : action == A_NONE ? "completed" : "failed",
                   (unsigned long)left.count, (unsigned long)left.bytes);
    }
    hook->on = false;
    sim::check(thread_task::num_active() == 0, "active", "tasks are counted as active after they have ended");
    w->sensor->remove_wavefront_listener(&w->wave);
}
sim::Registrar r1({"task-abort", gen, run, "a task was aborted, failed or observed"});
}  // namespace
