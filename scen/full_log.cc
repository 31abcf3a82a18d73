// Wavefront logs: every step completely or a failure that is reported (C20).
#include "files.h"
using namespace fl;

namespace {
struct Row { double time; std::vector<double> lat, lng, alt, surface, bottom, caustic, upper, lower, edge; };
template <class M> std::vector<double> flat(const M& m) {
    std::vector<double> v;
    for (size_t i = 0; i < m.size1(); ++i) for (size_t j = 0; j < m.size2(); ++j) v.push_back(double(m(i, j)));
    return v;
}
Row row(const wave_queue& w) {
    const wave_front& c = *w.curr();
    return {w.time(), flat(c.position.latitude()), flat(c.position.longitude()), flat(c.position.altitude()), flat(c.surface), flat(c.bottom), flat(c.caustic), flat(c.upper), flat(c.lower), flat(c.on_edge)};
}
uint64_t dig(const Row& r) {
    Digest g; g.d(r.time);
    for (auto* v : {&r.lat, &r.lng, &r.alt, &r.surface, &r.bottom, &r.caustic, &r.upper, &r.lower, &r.edge}) g.vec(*v);
    return g.h;
}
struct Setup { ocean_model::csptr ocean; seq_vector::csptr f, de, az; wposition1 pos; double step; };
Setup setup(const sim::Plan& p) {
    buffering(p);
    Setup s;
    double g = 0.25 * double(p.cfg("gradient")), fan = g == 0.0 ? 60.0 : 12.0;      // rays that turn in the water
    s.ocean = make_ocean(double(p.cfg("depth", 200)), 1500.0, -30.0, 0, g == 0.0 ? nullptr : profile_model::csptr(new profile_linear(1500.0, g, attenuation_model::csptr(new attenuation_constant(0.0)))));
    s.f = freqs(int(p.cfg("freqs")));
    int n = int(p.cfg("de", 3)), m = int(p.cfg("az", 3));
    s.de = seq_vector::csptr(new seq_linear(-fan, 2.0 * fan / (n - 1), size_t(n)));
    s.az = seq_vector::csptr(new seq_linear(0.0, 360.0 / (m - 1), size_t(m)));
    s.pos = wposition1(36.0, 16.0, -double(p.cfg("z", 90)));
    s.step = 0.01 * double(p.cfg("dt", 10));
    return s;
}
void gen_setup(sim::Rng& r, sim::Plan& p) {
    if (r.chance(0.4)) p.add(-1, "unbuffered", {1});
    p.add(-1, "depth", {r.range(100, 400)}); p.add(-1, "freqs", {r.below(2)}); if (r.chance(0.5)) p.add(-1, "gradient", {r.range(-8, 8)});
    p.add(-1, "de", {r.range(3, 9)}); p.add(-1, "az", {r.range(3, 6)});
    if (r.chance(0.5)) p.add(-1, "targets", {r.range(1, 2)});
    p.add(-1, "z", {r.range(5, 95)}); p.add(-1, "dt", {r.range(2, 20)});
}
// the file holds the rows of r
void verify(const std::string& name, const Setup& s, const std::vector<Row>& r, const char* title) {
    Nc f(name);
    sim::check(f.ok, "unreadable", "the closed log cannot be opened: %s", f.why.c_str());
    auto axis = [&f](const char* n, const seq_vector& v) {
        auto d = f.get(n);
        sim::check(d.size() == v.size(), "wrong-shape", "the log has %zu %s, the wavefront %zu", d.size(), n, v.size());
        for (size_t i = 0; i < d.size(); ++i) want(d[i], v[i], n, i);
    };
    axis("frequencies", *s.f); axis("source_de", *s.de); axis("source_az", *s.az);
    if (title) sim::check(f.text("long_name") == title, "wrong-data", "the log is called '%s' instead of '%s'", f.text("long_name").c_str(), title);
    sim::check(f.dim("travel_time") == int64_t(r.size()), "wrong-records", "the log has %lld records after %zu were saved", (long long)f.dim("travel_time"), r.size());
    auto t = f.get("travel_time");
    for (size_t k = 0; k < r.size(); ++k) want(t[k], r[k].time, "travel_time", k);
    auto field = [&](const char* n, std::vector<double> Row::*m) {
        auto sh = f.shape(n);
        sim::check(sh == std::vector<size_t>({r.size(), s.de->size(), s.az->size()}), "wrong-shape", "%s has the wrong shape", n);
        auto d = f.get(n);
        size_t per = s.de->size() * s.az->size();
        for (size_t k = 0; k < r.size(); ++k) for (size_t i = 0; i < per; ++i) want(d[k * per + i], (r[k].*m)[i], n, k, i);
    };
    field("latitude", &Row::lat); field("longitude", &Row::lng); field("altitude", &Row::alt); field("surface", &Row::surface); field("bottom", &Row::bottom);
    field("caustic", &Row::caustic); field("upper", &Row::upper); field("lower", &Row::lower); field("on_edge", &Row::edge);
}
void gen_disk(sim::Rng& r, sim::Plan& p, int horizon) {
    int kinds[] = {sim::IO_EIO, sim::IO_ENOSPC, sim::IO_SHORT, sim::IO_EINTR};
    int k = kinds[r.below(4)];
    if (r.chance(0.5) && k != sim::IO_EINTR) k |= sim::IO_STICKY;
    p.add(-1, "disk", {r.range(0, horizon), k});
}
void arm(const sim::Plan& p) { for (auto& o : p.ops) if (o.thr == -1 && o.is("disk")) sim::io_arm(o.a[0], int(o.a[1])); }

// ---- a wavefront that is logged step by step ------------------------------
enum What { OPEN, STEP, SAVE, CLOSE };
void log_gen(sim::Rng& r, sim::Plan& p) {
    gen_setup(r, p);
    for (int n = r.range(1, 2); n > 0; --n) {
        p.add(0, "op", {OPEN, r.below(3)});
        for (int k = r.range(0, 6); k > 0; --k) {
            if (r.chance(0.8)) p.add(0, "op", {SAVE});
            if (r.chance(0.9)) p.add(0, "op", {STEP});
        }
        if (r.chance(0.9)) p.add(0, "op", {SAVE});
        if (r.chance(0.85)) p.add(0, "op", {CLOSE});     // or the next log replaces it, or the wavefront is destroyed
        if (r.chance(0.3)) p.add(0, "op", {STEP});
    }
    int nf = r.chance(0.2) ? 0 : r.range(1, 2);
    for (int i = 0; i < nf; ++i) gen_disk(r, p, r.chance(0.4) ? 10 : r.chance(0.5) ? 40 : 150);
}
void log_run(const sim::Plan& p) {
    sim::set_density(0.05);
    Setup s = setup(p);
    // what they make of targets and boundaries is the same, too
    wposition targets(size_t(p.cfg("targets", 0)), 1);
    for (size_t i = 0; i < targets.size1(); ++i) { targets.latitude(i, 0, 36.0 + 0.0007 * double(i + 1)); targets.longitude(i, 0, 16.0 + 0.0004 * double(i)); targets.altitude(i, 0, -40.0 - 15.0 * double(i)); }
    struct Products { eigenray_collection rays; eigenverb_collection verbs; };
    Products with{eigenray_collection(s.f, s.pos, targets), eigenverb_collection(0)}, without{eigenray_collection(s.f, s.pos, targets), eigenverb_collection(0)};
    wave_queue reference(s.ocean, s.f, s.pos, s.de, s.az, s.step, targets.size1() ? &targets : nullptr);
    auto wave = std::make_unique<wave_queue>(s.ocean, s.f, s.pos, s.de, s.az, s.step, targets.size1() ? &targets : nullptr);
    if (targets.size1()) {
        wave->add_eigenray_listener(&with.rays); reference.add_eigenray_listener(&without.rays);
        wave->add_eigenverb_listener(&with.verbs); reference.add_eigenverb_listener(&without.verbs);
    }
    std::vector<Row> rows;
    std::string name; const char* title = nullptr; bool open = false, failed = false; int n = 0;
    const char* titles[3] = {nullptr, "log", "a log with a longer name"};
    int fds = sim::open_fds();
    uint64_t fired0 = sim::io_fired();
    arm(p);
    // a call that may fail for the sake of the disk
    auto attempt = [&](const char* what, const std::function<void()>& f) {
        uint64_t fired = sim::io_fired();
        try { f(); return true; } catch (const std::exception& e) {
            sim::trace("%s: %.80s", what, e.what());
            sim::check(sim::io_fired() > fired0, "spurious-failure", "%s failed on a healthy disk", what);
            sim::probe("failure-reported"); (void)fired;
            return false;
        }
    };
    auto closed = [&] { if (!failed) { bool w = sim::io_suspend(true); verify(name, s, rows, title); sim::io_suspend(w); sim::nontrivial(); if (sim::io_fired() > fired0) sim::probe("fault-absorbed"); } };
    each_op(p, 0, [&](const sim::Op& o) {
        switch (o.a[0]) {
            case OPEN: {
                bool was = open; std::string old = name; 
                name = std::string(sim::scratch()) + "/w" + std::to_string(n++) + ".nc";
                const char* t = titles[size_t(o.a[1]) % 3];
                if (was) {       // the former log is closed on the way
                    std::string next = name; name = old;
                    if (attempt("replacing the log", [&] { wave->init_netcdf(next.c_str(), t); })) { closed(); failed = false; } else failed = true;
                    name = next;
                } else failed = !attempt("opening", [&] { wave->init_netcdf(name.c_str(), t); });
                title = t; rows.clear(); open = true;
                break;
            }
            case SAVE:
                if (!open || failed) break;
                if (attempt("saving", [&] { wave->save_netcdf(); })) rows.push_back(row(*wave)); else failed = true;
                break;
            case STEP: wave->step(); reference.step(); break;
            case CLOSE:
                if (!open) break;
                if (!attempt("closing", [&] { wave->close_netcdf(); })) failed = true;
                closed();
                open = false;
                break;
            default: break;
        }
        sim::check(dig(row(*wave)) == dig(row(reference)), "propagation-changed", "the wavefront differs from one that is not logged");
    });
    // a new log on a healthy disk
    sim::io_disarm();
    bool fault = sim::io_fired() > fired0;
    if (open) try { wave->close_netcdf(); } catch (const std::exception&) { sim::check(fault, "spurious-failure", "closing failed on a healthy disk"); failed = true; }
    if (open) closed();
    if (!fault) sim::check(sim::open_fds() == fds, "left-open", "a file is still open after the log was closed");
    rows.clear(); failed = false; title = "again"; name = std::string(sim::scratch()) + "/again.nc";
    try {
        wave->init_netcdf(name.c_str(), title);
        for (int i = 0; i < 2; ++i) { wave->save_netcdf(); rows.push_back(row(*wave)); wave->step(); reference.step(); }
        wave->close_netcdf();
    } catch (const std::exception& e) { sim::violate("retry-failed", "logging to a healthy disk failed after an earlier failure: %s", e.what()); }
    closed();
    sim::check(dig(row(*wave)) == dig(row(reference)), "propagation-changed", "the wavefront differs from one that is not logged");
    wave.reset();
    if (!targets.size1()) return;
    sim::check(pl::dig(with.rays) == pl::dig(without.rays), "propagation-changed", "the eigenrays differ from those of a wavefront that is not logged");
    sim::check(pl::dig(with.verbs) == pl::dig(without.verbs), "propagation-changed", "the eigenverbs differ from those of a wavefront that is not logged");
    for (size_t i = 0; i < targets.size1(); ++i) if (!with.rays.eigenrays(i, 0).empty()) sim::probe("eigenrays while logging");
    if (pl::num_verbs(with.verbs)) sim::probe("eigenverbs while logging");
}
sim::Registrar r1({"wave-log", log_gen, log_run, "a wavefront is logged step by step to a disk that fails at a random operation, then again on a healthy one; non-trivial when a log was closed without error"});

// ---- a background propagation that logs -----------------------------------
struct Heard : wavefront_listener {
    int n = 0; uint64_t digest = 0; bool from_thread = false;
    void update_wavefront_data(const sensor_model*, eigenray_collection::csptr r, eigenverb_collection::csptr v) override { sim::NoPreempt np; ++n; Digest d; d.u(pl::dig(*r)); d.u(pl::dig(*v)); digest = d.h; }
};
void task_gen(sim::Rng& r, sim::Plan& p) {
    gen_setup(r, p);
    p.add(-1, "workers", {r.range(1, 3)}); p.add(-1, "others", {r.range(0, 3)}); p.add(-1, "steps", {r.range(1, 5)}); p.add(-1, "density", {r.range(3, 9)});
    if (r.chance(0.2)) p.add(-1, "abort", {r.below(400)});
    int nf = r.chance(0.25) ? 0 : r.range(1, 2);
    for (int i = 0; i < nf; ++i) gen_disk(r, p, r.chance(0.4) ? 10 : r.chance(0.5) ? 40 : 150);
    if (r.chance(0.15)) p.add(-1, "nowhere", {1});
}
void task_run(const sim::Plan& p) {
    sim::set_horizon(8000000, 0);
    sim::set_density(1.0 / double(1 << p.cfg("density", 6)));
    Setup s = setup(p);
    ocean_shared::update(s.ocean);
    int others = int(p.cfg("others"));
    double tmax = s.step * double(p.cfg("steps", 3));
    std::vector<std::shared_ptr<sensor_model>> sensors; std::vector<Heard> heard(size_t(others) + 1); std::vector<uint64_t> expect;
    wposition tpos{wposition1(36.001, 16.001, -60.0)}; matrix<uint64_t> ids(1, 1); ids(0, 0) = 77;
    auto make = [&](size_t i, const std::string& log) {
        return std::make_shared<wavefront_generator>(sensors[i].get(), tpos, ids, s.f, s.de, s.az, s.step, tmax, 300.0, 999, 999, log);
    };
    for (int i = 0; i <= others; ++i) {
        sensors.push_back(std::make_shared<sensor_model>(uint64_t(i + 1), "s", 0, wposition1(36.0 + 0.01 * i, 16.0, s.pos.altitude())));
        sensors.back()->compute_reverb(true);
        sensors.back()->add_wavefront_listener(&heard[size_t(i)]);
        make(size_t(i), "")->run();
        sim::check(heard[size_t(i)].n == 1, "not-published", "an undisturbed task published nothing");
        expect.push_back(heard[size_t(i)].digest);
        heard[size_t(i)].n = 0;
    }
    // what the log has to hold
    std::vector<Row> rows;
    Setup at = s; at.pos = sensors[0]->position();
    {
        wave_queue w(s.ocean, s.f, at.pos, s.de, s.az, s.step, &tpos);
        w.intensity_threshold(300.0); w.max_bottom(999); w.max_surface(999);
        eigenverb_collection verbs(s.ocean->num_volume());
        w.add_eigenverb_listener(&verbs);
        rows.push_back(row(w));
        while (w.time() < tmax) { w.step(); rows.push_back(row(w)); }
    }
    bool nowhere = p.cfg("nowhere"), abort = p.cfg("abort", -1) >= 0;
    std::string name = std::string(sim::scratch()) + (nowhere ? "/no/such/place.nc" : "/task.nc");
    arm(p);
    uint64_t fired = sim::io_fired();
    bool done;
    {
        thread_pool pool{unsigned(p.cfg("workers", 2))};
        std::vector<std::shared_ptr<thread_task>> tasks;
        for (int i = 0; i <= others; ++i) { tasks.push_back(make(size_t(i), i == 0 ? name : "")); }
        std::swap(tasks[0], tasks[tasks.size() / 2]);      // the logging one in the middle
        auto logging = tasks[tasks.size() / 2];
        for (auto& t : tasks) pool.run(t);
        if (abort) {
            for (int64_t i = p.cfg("abort"); i > 0; --i) sim::point("later");
            sim::note_fault("abort-any-time");
            logging->abort();
        }
        thread_task::wait();
        done = logging->done();
    }
    sim::io_disarm();
    bool fault = sim::io_fired() > fired;
    sim::check(thread_task::num_active() == 0, "active", "tasks are counted as active after they have ended");
    for (size_t i = 1; i < heard.size(); ++i) sim::check(heard[i].n == 1 && heard[i].digest == expect[i], "lost-task", "a task without a log published %d times", heard[i].n);
    if (heard[0].n) {
        sim::check(heard[0].n == 1 && done && heard[0].digest == expect[0], "wrong-result", "the task that logs published something else");
        sim::check(!nowhere, "unreported", "the log could not be written, but the task did not fail");
        verify(name, at, rows, nullptr);
        sim::nontrivial();
        if (fault) sim::probe("fault-absorbed");
    } else {
        sim::check(fault || nowhere || abort, "lost-task", "the task that logs published nothing although the disk is healthy");
        sim::probe("task-failed");
        if (!fault && !nowhere) {        // aborted: what was logged is complete
            Nc f(name);
            if (f.ok) {
                int64_t n = f.dim("travel_time");
                sim::check(n >= 1 && n <= int64_t(rows.size()), "wrong-records", "the log of an aborted task has %lld records", (long long)n);
            }
            if (f.ok) { auto part = rows; part.resize(size_t(f.dim("travel_time"))); verify(name, at, part, nullptr); sim::probe("log-of-aborted-task"); }
        }
    }
    for (size_t i = 0; i < heard.size(); ++i) sensors[i]->remove_wavefront_listener(&heard[i]);
}
sim::Registrar r2({"log-tasks", task_gen, task_run, "a background propagation that logs to a failing disk runs among others that do not; non-trivial when it published"});
}  // namespace
