// Everything at once (C11, C16): several clients add, remove, move, query and
// reconfigure sensors and platforms while background tasks compute.  Progress,
// memory safety and the release of what was removed are judged here; what is
// computed is judged by the other pipeline scenarios.
#include "pipeline.h"
using namespace pl;
namespace {

enum { SRC = 1, RCV = 2, REVERB = 4, LINE = 8, RANGE = 16 };
struct Sen {
    int idx, caps; uint64_t group; bool own = true;
    sensor_model::sptr obj;
    bool added = false;                 // by its latest call that returned (only its owner adds and removes it when `own`)
};
struct Watch { std::weak_ptr<const void> obj; std::string what; };
struct World {
    std::vector<Sen*> sen;
    std::vector<platform_model::sptr> hosts;
    std::vector<Watch> watch;
    std::vector<std::shared_ptr<wavefront_listener>> wl; std::shared_ptr<update_listener<sensor_pair>> pl;
    std::set<const sensor_model*> gone; int changing = 0; uint64_t changes = 0;     // sensors whose removal, with their listener, has returned
    int moved = 0, layers = 0; bool callbacks = false; int react = 0, reactions = 0;
} *w;

template <class T> void watch(const std::shared_ptr<T>& o, const std::string& what) { sim::NoPreempt n; w->watch.push_back({o, what}); }

// touch everything that a pair has to offer
void read_pair(const sensor_pair& q) {
    auto d = q.dirpaths();
    if (d) for (auto& r : d->eigenrays(0, 0)) { volatile double t = r->travel_time + r->intensity[0]; (void)t; }
    auto sv = q.src_eigenverbs(), rv = q.rcv_eigenverbs();
    for (auto& c : {sv, rv}) if (c) for (size_t i = 0; i < c->num_interfaces(); ++i) for (auto& v : c->eigenverbs(i)) { volatile double t = v->power[0]; (void)t; }
    auto b = q.biverbs();
    if (b) for (size_t i = 0; i < b->num_interfaces(); ++i) for (auto& v : b->biverbs(i)) { volatile double t = v->power[0]; (void)t; }
    auto ts = q.rvbts();
    if (ts && ts->time_series().size1() && ts->time_series().size2()) { volatile double t = ts->time_series()(0, 0); (void)t; }
    (void)q.keyID(); (void)q.description(); (void)q.compute_reverb();
    auto s = q.source(), r = q.receiver();
    (void)q.complement(s)->keyID(); (void)r->position();
}
// what a listener may do with the rest of the system while it is being called
void react(const sensor_pair& p) {
    int k;
    { sim::NoPreempt n; if (w->reactions >= 6) return; k = (w->reactions++ * 5 + w->react) % 7; sim::trace("listener reacts: %d", k); }
    auto* m = sensor_manager::instance();
    auto s = p.source(), r = p.receiver();
    switch (k) {
        case 0: s->transmit_schedule(make_schedule(k + w->react), platform_model::FORCE_UPDATE); break;
        case 1: (void)m->find_source(s->keyID()); (void)m->find_receiver(r->keyID()); break;
        case 2: (void)m->list(); (void)m->find(p.keyID()); break;
        case 3: r->update(1, r->position(), r->orient(), 1.0, platform_model::NO_UPDATE); break;
        case 4: { auto c = s->position(); s->update(1, wposition1(c.latitude(), c.longitude(), c.altitude() - 6.0), s->orient(), 1.0); break; }
        case 5: (void)m->find_sensor(s->keyID()); (void)platform_manager::instance()->list(); break;
        case 6: m->frequencies(freqs(w->react & 1)); s->transmit_schedule(make_schedule(w->react), platform_model::NO_UPDATE); break;
    }
    sim::probe("listener used the system");
}
struct PairHeard : update_listener<sensor_pair> {
    void notify_update(const sensor_pair* p) override {
        sim::nontrivial();
        {
            sim::NoPreempt n;
            for (auto* s : {p->source().get(), p->receiver().get()})
                sim::check(!w->gone.count(s), "call-after-removal", "the listener given to remove_sensor is called for pair %s after sensor %llu has been removed with it", p->keyID().c_str(), (unsigned long long)s->keyID());
        }
        if (w->callbacks) { read_pair(*p); (void)p->source()->get_motion(); }
        if (w->react) react(*p);
    }
};
// a removal tells something about later calls only if no other change met it
void add_sensor(const sensor_model::sptr& s) {
    { sim::NoPreempt n; w->gone.erase(s.get()); ++w->changes; ++w->changing; }
    try { sensor_manager::instance()->add_sensor(s, w->pl.get()); } catch (const std::exception&) {}
    sim::NoPreempt n; --w->changing;
}
void remove_sensor(const sensor_model::sptr& s) {
    uint64_t c; bool alone;
    { sim::NoPreempt n; alone = w->changing++ == 0; c = ++w->changes; }
    sensor_manager::instance()->remove_sensor(s, w->pl.get());
    sim::NoPreempt n;
    if (--w->changing == 0 && alone && w->changes == c) { w->gone.insert(s.get()); sim::probe("removed with its listener"); }
}
struct WaveHeard : wavefront_listener {
    void update_wavefront_data(const sensor_model* s, eigenray_collection::csptr, eigenverb_collection::csptr) override {
        sim::nontrivial();
        if (w->callbacks) { (void)s->position(); (void)s->rcv_keys(); }
    }
};

void gen(sim::Rng& r, sim::Plan& p, bool removal) {
    int n = r.range(1, 4), clients = r.range(2, 4);
    p.add(-1, "threads", {r.range(1, 4)});
    p.add(-1, "density", {r.range(3, 9)});
    p.add(-1, "tmax", {r.range(1, 4)});
    p.add(-1, "callbacks", {r.chance(0.6)});
    p.add(-1, "removal", {removal});
    p.add(-1, "react", {!removal && r.chance(0.4) ? r.range(1, 14) : 0});     // nobody may call the managers while they are reset
    int hosts = r.chance(0.4) ? 1 : 0;
    for (int i = 0; i < n; ++i) {
        int caps = r.chance(0.7) ? SRC | RCV : r.chance(0.5) ? SRC : RCV;
        if (r.chance(0.8)) caps |= REVERB;
        if (r.chance(0.3)) caps |= LINE;
        if (r.chance(0.2)) caps |= RANGE;
        p.add(-1, "sensor", {caps, r.chance(0.8) ? 1 : 0, hosts && r.chance(0.5)});
    }
    for (int c = 0; c < clients; ++c) {
        int m = r.range(2, 9);
        if (r.chance(0.8)) p.add(c, "add", {r.range(0, n - 1)});
        for (int k = 0; k < m; ++k) {
            int i = r.range(0, n - 1), x = r.range(0, 99);
            if (x < 14) p.add(c, "add", {i});
            else if (x < (removal ? 32 : 22)) p.add(c, "remove", {i, r.chance(0.5)});
            else if (x < 48) p.add(c, "move", {i, r.range(0, 3)});
            else if (x < 54) p.add(c, "sched", {i, r.range(0, 5), r.chance(0.5)});
            else if (x < 58) p.add(c, "freqs", {r.range(0, 1)});
            else if (x < 62) p.add(c, "ocean", {r.range(0, 3)});
            else if (x < 68) p.add(c, "find", {i, r.range(0, n - 1)});
            else if (x < 74) p.add(c, "search", {i, r.range(0, 2)});
            else if (x < 79) p.add(c, "list", {});
            else if (x < 84) p.add(c, "query", {i});
            else if (x < 88) p.add(c, "beams", {i, r.range(0, 3)});
            else if (x < 91) p.add(c, "host", {r.range(0, 3)});
            else if (x < 94) p.add(c, "wait", {r.chance(0.5) ? r.range(1, 50) : 0});
            else p.add(c, "sleep", {r.range(1, 60)});
        }
    }
    p.add(-1, "end", {removal ? r.range(0, 7) : 0, r.range(0, 80), r.range(0, 5)});
}
void gen11(sim::Rng& r, sim::Plan& p) { gen(r, p, false); }
void gen16(sim::Rng& r, sim::Plan& p) { gen(r, p, true); }

void new_ocean(int k) {
    auto o = make_ocean(200.0 + 10.0 * k, 1490.0 + 5.0 * k, -30.0, k % 3);
    watch(o, "an ocean");
    ocean_shared::update(o);
}
void build(Sen* s, double tmax) {
    sim::NoPreempt np;
    int i = s->idx;
    s->obj = std::make_shared<sensor_model>(uint64_t(i + 1), "s" + std::to_string(i), 0, wposition1(36.0 + 0.0005 * i, 16.0 + 0.0008 * i, -80.0 - 5.0 * i));
    bp_model::csptr beam = (s->caps & LINE) ? bp_model::csptr(new bp_line(4, 0.75, HLA)) : bp_model::csptr(new bp_omni());
    if (s->caps & SRC) s->obj->src_beam(0, beam);
    if (s->caps & RCV) s->obj->rcv_beam(0, beam);
    s->obj->compute_reverb((s->caps & REVERB) != 0);
    s->obj->multistatic(s->group);
    if (s->caps & RANGE) s->obj->max_range(3000.0);
    Fan fan;
    s->obj->de_fan(fan.de); s->obj->az_fan(fan.az); s->obj->time_step(fan.step); s->obj->time_maximum(fan.tmax);
    s->obj->time_maximum(tmax);
    watch(s->obj, "sensor " + std::to_string(i));
    auto l = std::make_shared<WaveHeard>();
    s->obj->add_wavefront_listener(l.get());
    w->wl.push_back(l);
}
void run(const sim::Plan& p) {
    sim::set_horizon(6000000, 0);
    sim::set_density(1.0 / double(1 << p.cfg("density", 4)));
    { sim::NoPreempt n; w = new World; w->callbacks = p.cfg("callbacks"); w->react = int(p.cfg("react", 0)); }
    thread_controller::reset(unsigned(std::max<int64_t>(1, p.cfg("threads", 2))));
    new_ocean(0);
    auto* smgr = sensor_manager::instance();
    auto* pmgr = platform_manager::instance();
    smgr->frequencies(freqs());
    w->pl = std::make_shared<PairHeard>();
    int i = 0;
    for (auto& o : p.ops) if (o.thr == -1 && o.is("sensor")) {
        Sen* s; { sim::NoPreempt np; s = new Sen{i, int(o.a[0]), uint64_t(o.a[1])}; w->sen.push_back(s); }
        build(s, 0.1 * double(p.cfg("tmax", 3)));
        if (o.a[2]) {
            if (w->hosts.empty()) {
                w->hosts.push_back(std::make_shared<platform_model>(100, "host", 0, wposition1(36.0, 16.0, -90.0)));
                pmgr->add(w->hosts.back());
                watch(w->hosts.back(), "the host");
            }
            w->hosts.back()->add_child(s->obj, bvector(50.0 * (1 + i), 20.0, 5.0 * i), orientation(10.0 * i, 0.0, 0.0));
        }
        ++i;
    }
    int n = int(w->sen.size());
    if (!n) return;
    auto perform = [&](int, const sim::Op& o) {
        Sen* x = w->sen[size_t(std::max<int64_t>(0, o.a[0])) % size_t(n)];
        struct { sensor_model::sptr obj; int idx, caps; } local, *s = &local;
        { sim::NoPreempt np; local = {x->obj, x->idx, x->caps}; }
        if (o.is("add")) {
            add_sensor(s->obj);
            for (auto& q : smgr->list()) watch(q, "pair " + q->keyID());
        } else if (o.is("remove")) {
            if (o.a[1]) for (auto& q : smgr->find_source(s->obj->keyID())) watch(q, "pair " + q->keyID());
            remove_sensor(s->obj);
            if (p.cfg("removal") && o.a[1] == 0 && !s->obj->host()) {   // and the caller drops it, in favour of a new one
                { sim::NoPreempt np; if (x->obj == s->obj) build(x, s->obj->time_maximum()); }
                local.obj.reset();
                sim::probe("sensor dropped after its removal");
            }
        } else if (o.is("move")) {
            int k; { sim::NoPreempt np; k = ++w->moved; }
            wposition1 pos(36.0 + 0.0005 * s->idx + 1e-6 * k, 16.0 + 0.0008 * s->idx, -60.0 - double(k % 9) * 8.0);
            auto type = o.a[1] == 0 ? platform_model::NO_UPDATE : o.a[1] == 3 ? platform_model::FORCE_UPDATE : platform_model::TEST_THRESHOLD;
            s->obj->update(k, pos, orientation(k % 45, 0.0, 0.0), 1.0 + 0.1 * k, type);
        } else if (o.is("sched")) s->obj->transmit_schedule(make_schedule(int(o.a[1])), o.a[2] ? platform_model::FORCE_UPDATE : platform_model::NO_UPDATE);
        else if (o.is("freqs")) smgr->frequencies(freqs(int(o.a[0])));
        else if (o.is("ocean")) new_ocean(int(o.a[0]));
        else if (o.is("find")) {
            auto q = smgr->find(sensor_pair::generate_hash_key(uint64_t(o.a[0] + 1), uint64_t(o.a[1] + 1)));
            if (q) { watch(q, "pair " + q->keyID()); read_pair(*q); }
            (void)pmgr->find(uint64_t(o.a[1] + 1));
        } else if (o.is("search")) {
            pair_list l;
            if (o.a[1] == 0) l = smgr->find_source(s->obj->keyID()); else if (o.a[1] == 1) l = smgr->find_receiver(s->obj->keyID());
            else if (auto f = sensor_manager::find_sensor(s->obj->keyID())) (void)f->position();
            for (auto& q : l) read_pair(*q);
        } else if (o.is("list")) {
            for (auto& q : smgr->list()) { watch(q, "pair " + q->keyID()); read_pair(*q); }
            for (auto& x : pmgr->list()) { (void)x->position(); for (auto& c : x->children()) (void)c->orient(); }
        } else if (o.is("query")) {
            time_t t; wposition1 pos; orientation ori; double speed;
            s->obj->get_motion(&t, &pos, &ori, &speed);
            (void)s->obj->transmit_schedule(); (void)s->obj->rcv_keys(); (void)s->obj->src_keys(); (void)s->obj->host_ref();
        } else if (o.is("beams")) {
            if (o.a[1] == 0 && (s->caps & SRC)) s->obj->src_beam(0, bp_model::csptr(new bp_omni()));
            else if (o.a[1] == 1 && (s->caps & RCV)) s->obj->rcv_beam(0, bp_model::csptr(new bp_omni()));
            else if (o.a[1] == 2) s->obj->rcv_steering(0, bvector(0.6, 0.8, 0.0));
            else (void)s->obj->rcv_beam(0);
        } else if (o.is("host")) {
            if (w->hosts.empty()) return;
            int k; { sim::NoPreempt np; k = ++w->moved; }
            if (o.a[0] == 0) (void)w->hosts[0]->children();
            else w->hosts[0]->update(k, wposition1(36.0 + 1e-5 * k, 16.0, -60.0 - 7.0 * (k % 9)), orientation(k % 80, 0.0, 0.0), 3.0, o.a[0] == 1 ? platform_model::FORCE_UPDATE : platform_model::TEST_THRESHOLD);
        } else if (o.is("wait")) {
            if (o.a[0]) { try { thread_task::wait(int(o.a[0])); } catch (const std::exception&) {} }
            else thread_task::wait();
        } else if (o.is("sleep")) sim_sleep_ms(int(o.a[0]));
    };
    run_clients(p, perform);
    int mode = 0, pause = 0, sched = 0;
    for (auto& o : p.ops) if (o.thr == -1 && o.is("end")) { mode = int(o.a[0]); pause = int(o.a[1]); sched = int(o.a[2]); }
    if (mode & 1) {                        // fresh work that the removals and resets will meet
        for (auto* s : w->sen) {
            add_sensor(s->obj);
            s->obj->transmit_schedule(make_schedule(sched));
            s->obj->update(999, s->obj->position(), orientation(44.0, 0.0, 0.0), 1.0, platform_model::FORCE_UPDATE);
        }
        for (auto& q : smgr->list()) watch(q, "pair " + q->keyID());
        if (pause) sim_sleep_ms(pause);
    }
    bool removal = p.cfg("removal");
    if (!removal) {
        // once the callers have stopped, everything drains
        thread_task::wait();
        sim::check(thread_task::num_active() == 0, "not-drained", "background work is left after waiting for it");
    }
    // results that are still held outlive everything else
    std::vector<std::shared_ptr<const void>> held; std::vector<uint64_t> digest; std::vector<eigenray_collection::csptr> rays; std::vector<rvbts_collection::csptr> series;
    if (mode & 4) for (auto& q : smgr->list()) { if (q->dirpaths()) rays.push_back(q->dirpaths()); if (q->rvbts()) series.push_back(q->rvbts()); }
    for (auto& x : rays) digest.push_back(dig(*x));
    if (mode & 2) { sensor_manager::reset(); sim::probe("managers reset while tasks are in flight"); platform_manager::reset(); }
    else for (auto* s : w->sen) remove_sensor(s->obj);
    {
        auto* again = sensor_manager::instance();
        sim::check(again->list().empty(), "resurrected", "pairs are listed after every sensor has been removed");
    }
    if (mode & 2) {                       // the fresh managers work while old tasks end
        auto* again = sensor_manager::instance();
        again->frequencies(freqs());
        Sen* s = w->sen[0];
        if (!s->obj->host()) {
            w->gone.clear();
            again->add_sensor(s->obj, nullptr);
            s->obj->update(1000, s->obj->position(), orientation(1.0, 0.0, 0.0), 1.0, platform_model::FORCE_UPDATE);
            auto q = again->find(sensor_pair::generate_hash_key(1, 1));
            sim::check((q != nullptr) == ((s->caps & SRC) && (s->caps & RCV)), "fresh-manager", "the fresh manager has %s pair of a sensor that was added to it", q ? "a" : "no");
            if (q) { watch(q, "pair of the fresh manager"); thread_task::wait(); sim::check(q->dirpaths() != nullptr, "fresh-manager", "a pair of the fresh manager never got direct paths"); }
            q.reset();
            again->remove_sensor(s->obj);
        }
    }
    bool alive = false;
    for (auto& x : w->watch) alive = alive || (x.what[0] == 'p' && !x.obj.expired());
    if (alive) sim::probe("removed pair kept alive by a task");
    thread_task::wait();
    sim::check(thread_task::num_active() == 0, "not-drained", "background work is left after waiting for it");
    sim::check(sensor_manager::instance()->list().empty(), "resurrected", "a removed pair is listed again");
    { sim::NoPreempt np; size_t k = 0; for (auto& x : rays) sim::check(dig(*x) == digest[k++], "published-changed", "direct paths changed after their pair was removed"); }
    rays.clear();
    for (auto& ts : series) { volatile double t = ts->receiver()->speed() + ts->source()->speed(); (void)t; }
    series.clear();
    // the caller drops its own references
    for (size_t k = 0; k < w->sen.size(); ++k) {
        for (auto& l : w->wl) w->sen[k]->obj->remove_wavefront_listener(l.get());
        if (!w->hosts.empty()) w->hosts[0]->remove_child(w->sen[k]->obj->keyID());
        w->sen[k]->obj.reset();
    }
    w->hosts.clear();
    sensor_manager::reset();
    platform_manager::reset();
    ocean_shared::reset();
    thread_controller::reset(1);          // ends the workers, which may hold the last reference for a moment
    sim::NoPreempt np;
    for (auto& x : w->watch) sim::check(x.obj.expired(), "not-destroyed", "%s was removed and is not used any more, but was not destroyed", x.what.c_str());
}
sim::Registrar r1({"pipeline-mix", gen11, run, "results were published while clients worked"});
sim::Registrar r2({"pipeline-remove", gen16, run, "results were published"});
}  // namespace
