// The shared ocean (C15): an atomic register whose values live as long as
// anybody uses them, for readers and for background tasks.
#include "pipeline.h"
#include <usml/ocean/ocean_utils.h>
#include <unordered_set>
using namespace pl;
namespace {

// ---- the register itself -------------------------------------------------
struct Call { char kind; int val = 0; uint64_t inv = 0, resp = ~0ull; };   // u(pdate), r(eset), c(urrent)
struct Reg {
    std::vector<Call*> calls;
    std::vector<int> held, destroyed;      // by value
    std::vector<char> created;
    std::map<const void*, int> ids;
} *g;

struct OwnedProfile : profile_linear {
    int val; bool reenter;
    OwnedProfile(int v, bool r) : profile_linear(1400.0 + v, attenuation_model::csptr(new attenuation_constant(0.0))), val(v), reenter(r) {}
    ~OwnedProfile() override {
        {
            sim::NoPreempt n;
            sim::trace("ocean %d destroyed", val);
            sim::check(g->held[size_t(val)] == 0, "destroyed-in-use", "ocean %d was destroyed while %d users held it", val, g->held[size_t(val)]);
            sim::check(++g->destroyed[size_t(val)] == 1, "destroyed-twice", "ocean %d was destroyed twice", val);
        }
        if (reenter) {                     // the clean-up of an ocean may itself look at the shared ocean
            auto o = ocean_shared::current();
            sim::NoPreempt n;
            sim::check(!o || o->profile().get() != this, "resurrected", "ocean %d is current while it is destroyed", val);
        }
    }
};
// which ocean is it? those of make_iso() are told apart by their depth
int value(const ocean_model::csptr& o) {
    if (!o) return 0;
    if (auto p = dynamic_cast<const OwnedProfile*>(o->profile().get())) return p->val;
    wposition1 at(36.0, 16.0, 0.0); double rho = 0.0;
    o->bottom()->height(at, &rho);
    int v = int(std::lround((wposition::earth_radius - rho) - 1000.0));
    sim::check(v > 0 && v < 64, "wrong-ocean", "an ocean of make_iso() is %.3f meters deep", wposition::earth_radius - rho);
    return v;
}
struct Lin {
    const std::vector<Call*>& c; std::unordered_set<uint64_t> seen; uint64_t done = 0;
    bool dfs(size_t n, int state) {
        if (n == c.size()) return true;
        if (!seen.insert(done * 64 + uint64_t(state)).second) return false;
        uint64_t limit = ~0ull;
        for (size_t i = 0; i < c.size(); ++i) if (!(done >> i & 1) && c[i]->resp < limit) limit = c[i]->resp;
        for (size_t i = 0; i < c.size(); ++i) {
            if (done >> i & 1 || c[i]->inv > limit) continue;
            int next = state;
            if (c[i]->kind == 'u') next = c[i]->val; else if (c[i]->kind == 'r') next = 0; else if (c[i]->val != state) continue;
            done |= 1ull << i;
            if (dfs(n + 1, next)) return true;
            done &= ~(1ull << i);
        }
        return false;
    }
};

void gen_reg(sim::Rng& r, sim::Plan& p) {
    int clients = r.range(2, 4), total = 0, val = 1;
    p.add(-1, "density", {r.range(0, 5)});
    for (int c = 0; c < clients; ++c) {
        int n = r.range(1, 6); bool writer = c == 0 || r.chance(0.5);
        for (int i = 0; i < n && total < 20; ++i, ++total) {
            double x = r.unit();
            if (writer && x < 0.1) p.add(c, "iso", {val++});
            else if (writer && x < 0.17) p.add(c, "again", {r.range(0, 3)});
            else if (writer && x < 0.45) p.add(c, "update", {val++, r.chance(0.3)});
            else if (writer && x < 0.6) p.add(c, "reset", {});
            else p.add(c, "current", {r.range(0, 6), r.range(0, 3)});
        }
    }
}
void run_reg(const sim::Plan& p) {
    sim::set_density(1.0 / double(1 << p.cfg("density", 2)));
    { sim::NoPreempt n; g = new Reg; g->held.resize(64); g->destroyed.resize(64); g->created.resize(64); }
    run_clients(p, [&](int, const sim::Op& o) {
        Call* c; { sim::NoPreempt n; c = new Call; c->kind = o.is("update") || o.is("iso") || o.is("again") ? 'u' : o.is("reset") ? 'r' : 'c'; g->calls.push_back(c); }
        if (o.is("iso")) {
            int v = int(o.a[0]) & 63;
            { sim::NoPreempt n; c->val = v; c->inv = sim::seq(); }
            ocean_utils::make_iso(1000.0 + v);
            sim::NoPreempt n; c->resp = sim::seq();
        } else if (o.is("again")) {           // an ocean that was current before is published again
            Call* d; { sim::NoPreempt n; d = new Call; d->kind = 'c'; g->calls.push_back(d); d->inv = sim::seq(); }
            auto ocean = ocean_shared::current();
            { sim::NoPreempt n; d->resp = sim::seq(); d->val = c->val = value(ocean); if (d->val) ++g->held[size_t(d->val)]; }
            sim_sleep_ms(int(o.a[0]));
            { sim::NoPreempt n; c->inv = sim::seq(); }
            ocean_shared::update(ocean);
            sim::NoPreempt n; c->resp = sim::seq(); if (d->val) --g->held[size_t(d->val)];
        } else if (o.is("update")) {
            int v = int(o.a[0]) & 63; c->val = v;
            auto ocean = make_ocean(200.0, 1500.0, -30.0, v % 3, profile_model::csptr(new OwnedProfile(v, o.a[1] != 0)));
            { sim::NoPreempt n; g->created[size_t(v)] = 1; c->inv = sim::seq(); }
            ocean_shared::update(ocean);
            { sim::NoPreempt n; c->resp = sim::seq(); }
        } else if (o.is("reset")) {
            { sim::NoPreempt n; c->inv = sim::seq(); }
            ocean_shared::reset();
            { sim::NoPreempt n; c->resp = sim::seq(); }
        } else {
            { sim::NoPreempt n; c->inv = sim::seq(); }
            auto ocean = ocean_shared::current();
            std::shared_ptr<const profile_model> profile;
            {
                sim::NoPreempt n; c->resp = sim::seq();
                if (ocean) {
                    profile = ocean->profile();
                    c->val = value(ocean);
                    ++g->held[size_t(c->val)];
                    sim::nontrivial();
                }
            }
            if (!ocean) return;
            for (int i = 0; i <= int(o.a[1]); ++i) {
                if (o.a[0]) sim_sleep_ms(int(o.a[0]));
                matrix<double> speed(1, 1);
                wposition at(1, 1, 36.0, 16.0, -10.0);
                profile->sound_speed(at, &speed);
                sim::NoPreempt n;
                bool iso = dynamic_cast<const OwnedProfile*>(profile.get()) == nullptr;
                double want = iso ? 1500.0 : 1400.0 + c->val;
                sim::check(std::fabs(speed(0, 0) - want) < 1e-6, "wrong-ocean", "ocean %d gives a sound speed of %.3f", c->val, speed(0, 0));
                sim::check(int(ocean->num_volume()) == (iso ? 0 : c->val % 3), "wrong-ocean", "ocean %d has %zu layers", c->val, ocean->num_volume());
                sim::check(g->destroyed[size_t(c->val)] == 0, "destroyed-in-use", "ocean %d was destroyed in use", c->val);
            }
            { sim::NoPreempt n; --g->held[size_t(c->val)]; }
        }
    });
    auto last = ocean_shared::current();
    {
        sim::NoPreempt n;
        Call* c = new Call; c->kind = 'c'; c->inv = sim::seq(); c->resp = sim::seq();
        c->val = value(last);
        g->calls.push_back(c);
        Lin l{g->calls, {}, 0};
        if (!l.dfs(0, 0)) {
            std::string s;
            for (auto* x : g->calls) s += std::string(" ") + (x->kind == 'u' ? "update(" : x->kind == 'r' ? "reset(" : "current(") + std::to_string(x->val) + ")[" + std::to_string(x->inv) + "," + std::to_string(x->resp) + "]";
            sim::violate("linearizability", "no order of the calls explains what the readers saw:%s", s.c_str());
        }
        for (size_t v = 1; v < 64; ++v) if (g->created[v] && int(v) != c->val) sim::check(g->destroyed[v] == 1, "not-destroyed", "ocean %zu is not used any more but was not destroyed", v);
    }
    last.reset();
    ocean_shared::reset();
    sim::NoPreempt n;
    for (size_t v = 1; v < 64; ++v) if (g->created[v]) sim::check(g->destroyed[v] == 1, "not-destroyed", "ocean %zu is not used any more but was not destroyed", v);
}

// ---- background tasks while the ocean changes ------------------------------
struct Ocean { int val; uint64_t inv, resp; ocean_model::csptr ocean; };
struct Move { uint64_t inv, resp; wposition1 pos; };
struct Sen;
struct Heard : wavefront_listener {
    struct Pub { uint64_t seq; eigenray_collection::csptr rays; eigenverb_collection::csptr verbs; };
    std::vector<Pub> pubs; std::vector<Move> moves; sensor_model::sptr obj; int idx = 0;
    void update_wavefront_data(const sensor_model*, eigenray_collection::csptr r, eigenverb_collection::csptr v) override {
        sim::NoPreempt n; pubs.push_back({sim::seq(), r, v}); sim::nontrivial();
        sim::trace("sensor %d publishes, %zu interfaces", idx, v->num_interfaces());
    }
};
struct PairHeard : update_listener<sensor_pair> {
    struct Got { uint64_t seq; biverb_collection::csptr bi; };
    std::map<std::string, std::vector<Got>> got;
    void notify_update(const sensor_pair* p) override {
        auto bi = p->biverbs();
        sim::NoPreempt n;
        auto& l = got[p->keyID()];
        if (bi && (l.empty() || l.back().bi != bi)) l.push_back({sim::seq(), bi});
    }
};
struct World { std::vector<Ocean> oceans; std::vector<std::weak_ptr<const ocean_model>> all; std::vector<Heard*> sen; PairHeard pairs; int moved = 0; } *w;

void set_ocean(int val) {
    ocean_model::csptr o;
    if (val) o = make_ocean(200.0, 1480.0 + 5.0 * val, -30.0, val % 3);
    size_t at;
    { sim::NoPreempt n; at = w->oceans.size(); w->oceans.push_back({val, sim::seq(), ~0ull, o}); if (o) w->all.push_back(o); }
    if (o) ocean_shared::update(o); else ocean_shared::reset();
    sim::NoPreempt n; w->oceans[at].resp = sim::seq();
}
// oceans that were current at some moment between two instants (one writer, so they succeed each other)
std::vector<ocean_model::csptr> current_in(uint64_t from, uint64_t to) {
    std::vector<ocean_model::csptr> l;
    for (size_t i = 0; i < w->oceans.size(); ++i) {
        uint64_t begin = w->oceans[i].inv, end = i + 1 < w->oceans.size() ? w->oceans[i + 1].resp : ~0ull;
        if (begin <= to && end >= from && w->oceans[i].ocean) l.push_back(w->oceans[i].ocean);
    }
    return l;
}
void gen_tasks(sim::Rng& r, sim::Plan& p) {
    int n = r.range(1, 2);
    p.add(-1, "threads", {r.range(1, 3)});
    p.add(-1, "density", {r.range(3, 9)});
    p.add(-1, "sensors", {n});
    p.add(-1, "first", {r.range(1, 6)});
    for (int i = 0; i < n; ++i) { int m = r.range(1, 3); for (int k = 0; k < m; ++k) { p.add(i, "move", {i}); if (r.chance(0.5)) p.add(i, "sleep", {r.range(1, 60)}); } }
    int m = r.range(1, 5);
    for (int k = 0; k < m; ++k) { if (r.chance(0.6)) p.add(n, "sleep", {r.range(1, 60)}); p.add(n, "ocean", {r.chance(0.15) ? 0 : r.range(1, 9)}); }
    p.add(-1, "last", {r.range(1, 9)});
}
void do_move(int i) {
    Heard* s = w->sen[size_t(i)]; size_t at; wposition1 pos;
    {
        sim::NoPreempt n;
        pos = wposition1(36.0 + 0.0005 * i, 16.0 + 0.0008 * i, -80.0 - 0.5 * double(++w->moved));
        at = s->moves.size(); s->moves.push_back({sim::seq(), ~0ull, pos});
    }
    bool threw = false;
    try { s->obj->update(0, pos, orientation(), 1.0, platform_model::FORCE_UPDATE); } catch (const std::exception&) { threw = true; }
    sim::NoPreempt n; s->moves[at].resp = sim::seq();
    (void)threw;
}
void run_tasks(const sim::Plan& p) {
    sim::set_horizon(4000000, 0);
    sim::set_density(1.0 / double(1 << p.cfg("density", 4)));
    { sim::NoPreempt n; w = new World; }
    thread_controller::reset(unsigned(std::max<int64_t>(1, p.cfg("threads", 2))));
    auto* smgr = sensor_manager::instance();
    smgr->frequencies(freqs());
    set_ocean(std::max(1, int(p.cfg("first"))));
    Fan fan;
    int n = std::min(2, std::max(1, int(p.cfg("sensors", 1))));
    for (int i = 0; i < n; ++i) {
        auto* s = new Heard; s->idx = i;
        s->obj = std::make_shared<sensor_model>(uint64_t(i + 1), "s", 0, wposition1(36.0 + 0.0005 * i, 16.0 + 0.0008 * i, -80.0));
        s->obj->src_beam(0, bp_model::csptr(new bp_omni())); s->obj->rcv_beam(0, bp_model::csptr(new bp_omni()));
        s->obj->compute_reverb(true); s->obj->multistatic(1);
        s->obj->de_fan(fan.de); s->obj->az_fan(fan.az); s->obj->time_step(fan.step); s->obj->time_maximum(fan.tmax);
        s->obj->add_wavefront_listener(s);
        w->sen.push_back(s);
        smgr->add_sensor(s->obj, &w->pairs);
    }
    run_clients(p, [&](int, const sim::Op& o) {
        if (o.is("move")) { if (o.a[0] < n) do_move(int(o.a[0])); }
        else if (o.is("sleep")) sim_sleep_ms(int(o.a[0]));
        else if (o.is("ocean")) set_ocean(int(o.a[0]));
    });
    thread_task::wait();
    set_ocean(std::max(1, int(p.cfg("last"))));
    for (int i = 0; i < n; ++i) { do_move(i); thread_task::wait(); }
    {
        sim::NoPreempt np;
        sim::check(thread_task::num_active() == 0, "not-settled", "background work is left after waiting for it");
        for (auto* s : w->sen) {
            sim::check(!s->pubs.empty() && same_pos(s->pubs.back().rays->source_position(), s->moves.back().pos), "missing-publication", "sensor %d: the last update is not published", s->idx);
            for (auto& q : s->pubs) {
                const Move* m = nullptr; for (auto& x : s->moves) if (same_pos(x.pos, q.rays->source_position())) m = &x;
                sim::check(m != nullptr, "stale-publication", "sensor %d published results that no update asked for", s->idx);
                bool ok = false; auto cand = current_in(m->inv, m->resp);
                for (auto& o : cand) {
                    if (ok || q.verbs->num_interfaces() != 2 + 2 * o->num_volume()) continue;
                    Wave v = recompute_wave(o, *s->obj, *q.rays, true);
                    ok = dig(*v.rays) == dig(*q.rays) && dig(*v.verbs) == dig(*q.verbs);
                }
                sim::check(ok, "wrong-ocean", "sensor %d published results that no ocean current during its update gives", s->idx);
                if (q.verbs->num_interfaces() > 2 && q.verbs->size(2)) sim::probe("volume eigenverbs");
            }
        }
        for (auto* S : w->sen) for (auto* R : w->sen) {
            auto pair = smgr->find(sensor_pair::generate_hash_key(S->obj->keyID(), R->obj->keyID()));
            sim::check(pair != nullptr, "pair-missing", "no pair %d->%d", S->idx, R->idx);
            auto& got = w->pairs.got[pair->keyID()];
            auto last = pair->biverbs();
            sim::check(last && !got.empty() && got.back().bi == last, "not-notified", "pair %d->%d: the last bistatic eigenverbs have not been announced", S->idx, R->idx);
            for (auto& b : got) {
                bool ok = false;
                for (size_t i = 0; i < S->pubs.size() && !ok; ++i) for (size_t k = 0; k < R->pubs.size() && !ok; ++k) {
                    auto &x = S->pubs[i], &y = R->pubs[k];
                    if (x.seq > b.seq || y.seq > b.seq) continue;
                    if (S == R && i != k) continue;
                    for (auto& o : current_in(std::max(x.seq, y.seq), b.seq)) {
                        if (x.verbs->num_interfaces() != y.verbs->num_interfaces() || b.bi->num_interfaces() != y.verbs->num_interfaces()) sim::probe("stages with different numbers of layers");
                        if (ok || b.bi->num_interfaces() != 2 + 2 * o->num_volume()) continue;
                        ok = dig(*recompute_biverbs(o, *x.verbs, *y.verbs)) == dig(*b.bi);
                    }
                }
                sim::check(ok, "wrong-ocean", "pair %d->%d published bistatic eigenverbs that no ocean current while they were computed gives", S->idx, R->idx);
                if (num_biverbs(*b.bi)) sim::probe("bistatic eigenverbs not empty");
            }
        }
        auto &x = w->sen.front()->pubs.back(), &y = w->sen.back()->pubs.back();
        auto pair = smgr->find(sensor_pair::generate_hash_key(w->sen.front()->obj->keyID(), w->sen.back()->obj->keyID()));
        sim::check(dig(*recompute_biverbs(w->oceans.back().ocean, *x.verbs, *y.verbs)) == dig(*pair->biverbs()), "stale-ocean", "the final bistatic eigenverbs are not those of the final ocean");
    }
    // the last users let go
    for (auto* s : w->sen) { s->obj->remove_wavefront_listener(s); smgr->remove_sensor(s->obj, &w->pairs); }
    { sim::NoPreempt np; for (auto* s : w->sen) s->obj.reset(); w->oceans.clear(); }
    sensor_manager::reset();
    ocean_shared::reset();
    thread_controller::reset(1);
    sim::NoPreempt np;
    for (size_t i = 0; i < w->all.size(); ++i) sim::check(w->all[i].expired(), "not-destroyed", "an ocean is not used any more but was not destroyed");
}
sim::Registrar r1({"ocean-register", gen_reg, run_reg, "a reader got an ocean"});
sim::Registrar r2({"ocean-tasks", gen_tasks, run_tasks, "a sensor published results"});
}  // namespace
