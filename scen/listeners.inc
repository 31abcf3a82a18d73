// Update listeners that come and go while notifications are delivered (C22).
#include "common.h"
#if WAVE == 2
#include <usml/eigenrays/eigenray_notifier.h>
#include <usml/eigenverbs/eigenverb_notifier.h>
#include <usml/waveq3d/reflection_notifier.h>
#elif WAVE
#include <usml/wavegen/wavefront_listener.h>
#include <usml/wavegen/wavefront_notifier.h>
#else
#include <usml/managed/managed.h>
#endif

namespace {
struct Obj { int n; };
#if WAVE == 2
// the four events of a wavefront: the number of the notification travels as run, interface or ray number
int kind;
struct Source : usml::eigenrays::eigenray_notifier, usml::eigenverbs::eigenverb_notifier, usml::waveq3d::reflection_notifier {
    void deliver(const Obj* o) {
        const size_t n = size_t(o->n);
        if (kind == 0) notify_eigenray_listeners(1, 2, nullptr, n);
        else if (kind == 1) check_eigenray_listeners(7.0, n);
        else if (kind == 2) notify_eigenverb_listeners(nullptr, n);
        else notify_reflection_listeners(7.0, n, 2, 0.5, 0.1, 1500.0, {}, {}, 3);
    }
};
#elif WAVE
// the notifier only passes the sensor on: any address will do
struct Source : usml::wavegen::wavefront_notifier {
    void deliver(const Obj* o) { notify_wavefront_listeners(reinterpret_cast<const usml::sensors::sensor_model*>(o), nullptr, nullptr); }
};
#else
struct Source : usml::managed::update_notifier<Obj> {
    void deliver(const Obj* o) { notify_update(o); }
};
#endif

struct Lst;
struct Call { int notif; uint64_t begin, end; };
struct Period { uint64_t inv, resp = ~0ull; };       // of an addition or a removal
struct Rec {                                       // outlives the listener itself
    int id, mode, from;                            // mode 0 plain, 1 removes itself, 2 removes another, 3 adds another, 4 slow
    std::vector<Call> calls;
    std::vector<Period*> adds, rems;
    bool deleted = false;
    Lst* obj = nullptr;
};
struct Notif { uint64_t inv, resp = ~0ull; };
struct W { Source* src; std::vector<Rec*> recs; std::vector<Notif*> notifs; } *w;

void add_to(Source*, Lst*);
void remove_from(Source*, Lst*);
void do_add(Rec* r) {
    Period* p;
    { sim::NoPreempt n; p = new Period; p->inv = sim::seq(); r->adds.push_back(p); }
    add_to(w->src, r->obj);
    sim::NoPreempt n; p->resp = sim::seq();
}
void do_remove(Rec* r) {
    Period* p;
    { sim::NoPreempt n; p = new Period; p->inv = sim::seq(); r->rems.push_back(p); }
    remove_from(w->src, r->obj);
    sim::NoPreempt n; p->resp = sim::seq();
}
#if WAVE == 2
struct Lst : usml::eigenrays::eigenray_listener, usml::eigenverbs::eigenverb_listener, usml::waveq3d::reflection_listener {
#elif WAVE
struct Lst : usml::wavegen::wavefront_listener {
#else
struct Lst : usml::managed::update_listener<Obj> {
#endif
    Rec* rec;
    int canary = 0x5ca1ab1e;
    explicit Lst(Rec* r) : rec(r) {}
    ~Lst() { canary = 0; }
#if WAVE == 2
    void number(int k, size_t n, bool same) {
        sim::check(k == kind && same, "arguments", "listener %d is told of another event", rec->id);
        Obj o{int(n)}; heard(&o);
    }
    void add_eigenray(size_t t1, size_t t2, usml::eigenrays::eigenray_model::csptr ray, size_t n) override { number(0, n, t1 == 1 && t2 == 2 && !ray); }
    void check_eigenrays(double t, size_t n) override { number(1, size_t(n), t == 7.0); }
    void add_eigenverb(usml::eigenverbs::eigenverb_model::csptr v, size_t n) override { number(2, n, !v); }
    void reflect(double t, size_t n, size_t az, double dt, double g, double c, const usml::types::wposition1&, const usml::types::wvector1&, size_t type) override {
        number(3, n, t == 7.0 && az == 2 && dt == 0.5 && g == 0.1 && c == 1500.0 && type == 3);
    }
#elif WAVE
    void update_wavefront_data(const usml::sensors::sensor_model* s, usml::eigenrays::eigenray_collection::csptr,
                               usml::eigenverbs::eigenverb_collection::csptr) override { heard(reinterpret_cast<const Obj*>(s)); }
#else
    void notify_update(const Obj* o) override { heard(o); }
#endif
    void heard(const Obj* o) {
        size_t at;
        Rec* r = rec;
        {
            sim::NoPreempt n;
            at = r->calls.size();
            r->calls.push_back({o->n, sim::seq(), 0});
            sim::check(!r->deleted, "call-after-removal", "listener %d is called after its removal returned", r->id);
            sim::trace("notification %d calls listener %d", o->n, r->id);
        }
        sim::point("callback");
        if (r->mode == 4) for (int i = 0; i < 3; ++i) sim::point("callback");
        if (r->mode == 1 && int(at) >= r->from) { do_remove(r); sim::probe("removes itself"); }
        if (r->mode == 2 && at == size_t(r->from)) { Rec* o2 = w->recs[size_t(r->id + 1) % w->recs.size()]; if (o2 != r) { do_remove(o2); sim::probe("removes another from a callback"); } }
        if (r->mode == 3 && at == size_t(r->from)) { Rec* o2 = w->recs[size_t(r->id + 1) % w->recs.size()]; if (!o2->deleted && o2->mode != 5) { do_add(o2); sim::probe("adds another from a callback"); } }
        sim::point("callback");
        sim::NoPreempt n;
        sim::check(canary == 0x5ca1ab1e, "call-after-removal", "listener %d was destroyed while it was being called, its removal had returned", r->id);
        r->calls[at].end = sim::seq();
    }
};
#if WAVE == 2
void add_to(Source* s, Lst* l) { if (kind < 2) s->add_eigenray_listener(l); else if (kind == 2) s->add_eigenverb_listener(l); else s->add_reflection_listener(l); }
void remove_from(Source* s, Lst* l) { if (kind < 2) s->remove_eigenray_listener(l); else if (kind == 2) s->remove_eigenverb_listener(l); else s->remove_reflection_listener(l); }
#elif WAVE
void add_to(Source* s, Lst* l) { s->add_wavefront_listener(l); }
void remove_from(Source* s, Lst* l) { s->remove_wavefront_listener(l); }
#else
void add_to(Source* s, Lst* l) { s->add_listener(l); }
void remove_from(Source* s, Lst* l) { s->remove_listener(l); }
#endif

void gen(sim::Rng& r, sim::Plan& p) {
    int nl = r.chance(0.02) ? r.range(6, 40) : r.range(1, 5);
    for (int i = 0; i < nl; ++i) { int m = r.chance(0.45) ? 0 : r.range(1, 5); p.add(-2, "listener", {m, r.range(0, 2), r.chance(0.6)}); }
#if WAVE == 2
    p.add(-1, "kind", {r.range(0, 3)});
#endif
    int nn = r.range(1, 3), c = 0;
    for (int i = 0; i < nn; ++i, ++c) { int k = r.range(1, 4); for (int j = 0; j < k; ++j) p.add(c, "notify", {}); }
    int nc = r.range(1, 2);
    for (int i = 0; i < nc; ++i, ++c) { int k = r.range(1, 5); for (int j = 0; j < k; ++j) p.add(c, r.chance(0.5) ? "add" : "remove", {r.range(0, nl - 1)}); }
}
void run(const sim::Plan& p) {
    sim::set_horizon(60000 + 3000 * p.ops.size(), 0);
#if WAVE == 2
    kind = int(p.cfg("kind"));
#endif
    w = new W;
    w->src = new Source;
    for (auto& o : p.ops) if (o.thr == -2) {
        Rec* r = new Rec; r->id = int(w->recs.size()); r->mode = int(o.a[0]); r->from = int(o.a[1]);
        r->obj = new Lst(r);
        w->recs.push_back(r);
        if (o.a[2]) do_add(r);
    }
    if (w->recs.empty()) return;
    static bool removing[64];
    run_clients(p, [&](int, const sim::Op& o) {
        if (o.is("notify")) {
            Notif* x; Obj* ob;
            { sim::NoPreempt n; x = new Notif; x->inv = sim::seq(); w->notifs.push_back(x); ob = new Obj{int(w->notifs.size()) - 1}; sim::nontrivial(); }
            w->src->deliver(ob);
            sim::NoPreempt n; x->resp = sim::seq();
        } else {
            Rec* r = w->recs[size_t(o.a[0]) % w->recs.size()];
            if (o.is("add")) { if (!r->deleted && r->mode != 5) do_add(r); }
            else {
                // mode 5: the listener is destroyed once its removal has returned (nobody adds it again)
                bool mine = false;
                { sim::NoPreempt n; if (r->mode == 5 && !removing[r->id]) mine = removing[r->id] = true; if (r->deleted || (r->mode == 5 && !mine)) return; }
                for (auto* q : w->recs) if (q->mode == 2 && (q->id + 1) % int(w->recs.size()) == r->id && r->mode == 5) return;   // someone else may still be removing it
                do_remove(r);
                if (r->mode == 5) { { sim::NoPreempt n; r->deleted = true; } Lst* l = r->obj; delete l; sim::probe("destroyed after removal"); }
            }
        }
    });
    sim::NoPreempt n;
    for (auto* r : w->recs) {
        for (size_t k = 0; k < w->notifs.size(); ++k) {
            Notif* x = w->notifs[k];
            int times = 0;
            for (auto& c : r->calls) if (c.notif == int(k)) {
                ++times;
                sim::check(c.begin > x->inv && c.end < x->resp, "call-window", "listener %d was called outside the notification", r->id);
            }
            sim::check(times <= 1, "twice", "listener %d was called %d times for one notification", r->id, times);
            // registered throughout? one registration may be interrupted by removals
            bool through = false;
            for (auto* q : r->adds) {
                if (q->resp > x->inv) continue;
                bool gone = false;
                for (auto* z : r->rems) if (z->resp > q->inv && z->inv < x->resp) gone = true;
                if (!gone) through = true;
            }
            if (through) { sim::check(times == 1, "missed", "listener %d was registered throughout notification %zu and not called", r->id, k); sim::probe("registered throughout"); }
            // a call needs an addition that had not certainly been undone before it began
            for (auto& c : r->calls) if (c.notif == int(k)) {
                bool may = false;
                for (auto* q : r->adds) {
                    if (q->inv > c.begin) continue;
                    bool gone = false;
                    for (auto* z : r->rems) if (z->inv > q->resp && z->resp < c.begin) gone = true;
                    if (!gone) may = true;
                }
                sim::check(may, "call-after-removal", "listener %d was called after its removal had returned", r->id);
            }
        }
    }
}
#if WAVE == 2
#define SCENARIO "wavequeue-listeners"
#elif WAVE
#define SCENARIO "wavefront-listeners"
#else
#define SCENARIO "listeners"
#endif
sim::Registrar r1({SCENARIO, gen, run, "at least one notification was delivered"});
}  // namespace
