// The set of sensor pairs (C10): every history of concurrent additions,
// removals and searches must be explained by one order of the calls under a
// small reference model of "which pairs exist for which sensors".
#include "common.h"
#include <usml/beampatterns/bp_omni.h>
#include <usml/platforms/platforms.h>
#include <usml/sensors/sensor_manager.h>
#include <usml/sensors/sensor_pair.h>
#include <usml/types/seq_linear.h>
#include <algorithm>
#include <functional>
#include <unordered_set>

using namespace usml::platforms;
using namespace usml::sensors;
using namespace usml::types;
using namespace usml::beampatterns;
namespace {

enum { SRC = 1, RCV = 2, MINR = 4, NOTIME = 8, MAXR = 16, NEAR = 32 };
struct Cfg { int64_t key; int caps; uint64_t group; };
struct Sen { Cfg cfg; sensor_model::sptr obj; bool own_key = true; };
enum Res { RS_OK = 0, RS_FREQ = 1, RS_TIME = 2, RS_DUP = 3, RS_MEM = 4 };
struct Call {
    int client = 0; char kind = 0;       // a(dd) r(emove) s(find_source) d(find_receiver) f(requencies)
    int s = 0; int res = 0;
    std::vector<std::pair<int, int>> pairs;
    uint64_t inv = 0, resp = 0;
};
struct PL : update_listener<sensor_pair> {
    std::vector<const sensor_pair*> heard;
    void notify_update(const sensor_pair* p) override { sim::NoPreempt n; heard.push_back(p); }
};
struct PW {
    std::vector<Sen> sen;
    std::vector<Call*> calls;
    std::set<uint64_t> taken;            // keys of plain platforms registered beforehand
    PL listener;
} *w;

void gen(sim::Rng& r, sim::Plan& p) {
    int n = r.range(2, 6);
    bool dups = r.chance(0.4), odd = r.chance(0.4);
    // keys whose digits run into each other, and that agree in their lower half
    static const int64_t keys[6] = {1, 11, 111, (1ll << 32) + 1, (1ll << 32) + 11, (1ll << 40) + 1};
    static const int64_t groups[4] = {0, 1, (1ll << 32) + 1, (1ll << 32)};
    for (int i = 0; i < n; ++i) {
        int64_t key = r.chance(0.2) ? 0 : dups && i && r.chance(0.6) ? (odd ? keys[r.range(0, i - 1)] : r.range(1, i)) : odd ? keys[i] : i + 1;
        int caps = r.chance(0.6) ? (SRC | RCV) : r.chance(0.5) ? SRC : r.chance(0.9) ? RCV : 0;
        if (r.chance(0.15)) caps |= MINR;
        if (r.chance(0.08)) caps |= NOTIME;
        if (r.chance(0.3)) caps |= MAXR;
        if (r.chance(0.3)) caps |= NEAR;
        p.add(-1, "sensor", {key, caps, r.chance(0.75) ? (odd ? groups[r.range(1, 3)] : r.range(1, 2)) : 0});
    }
    p.add(-1, "freq", {r.chance(0.85)});
    p.add(-1, "plain", {r.chance(0.2) ? r.range(1, n) : 0});
    if (r.chance(0.35)) p.add(-1, "alloc", {r.range(0, 200), r.range(1, 3)});
    if (r.chance(0.02)) p.add(-1, "crowd", {r.range(5, 40), r.range(0, 3)});
    int clients = r.range(1, 3);
    for (int c = 0; c < clients; ++c) {
        int m = r.range(2, clients == 1 ? 12 : 5);
        for (int i = 0; i < m; ++i) {
            int k = r.range(0, 19);
            if (k < 9) p.add(c, "add", {r.range(0, n - 1)});
            else if (k < 13) p.add(c, "remove", {r.range(0, n - 1)});
            else if (k < 16) p.add(c, "fsrc", {r.range(0, n - 1)});
            else if (k < 19) p.add(c, "frcv", {r.range(0, n - 1)});
            else p.add(c, "freq", {});
        }
    }
}
seq_vector::csptr freqs() { return seq_vector::csptr(new seq_linear(900.0, 10.0, 901.0)); }

// ---- the reference model ---------------------------------------------
struct State { uint64_t reg = 0; bool freq = false; };
uint64_t key_of(int i) { return w->sen[size_t(i)].obj->keyID(); }
int holder(const State& s, uint64_t key) {
    for (size_t i = 0; i < w->sen.size(); ++i) if ((s.reg >> i & 1) && key_of(int(i)) == key) return int(i);
    return -1;
}
bool has_pair(const State& s, int a, int b) {
    if (!(s.reg >> a & 1) || !(s.reg >> b & 1)) return false;
    const Cfg &x = w->sen[size_t(a)].cfg, &y = w->sen[size_t(b)].cfg;
    if (!(x.caps & SRC) || !(y.caps & RCV)) return false;
    if (a == b) return !(x.caps & MINR);
    return x.group != 0 && x.group == y.group;
}
std::vector<std::pair<int, int>> pairs_of(const State& s, int src, int rcv) {
    std::vector<std::pair<int, int>> v;
    int n = int(w->sen.size());
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b)
        if ((src < 0 || a == src) && (rcv < 0 || b == rcv) && has_pair(s, a, b)) v.push_back({a, b});
    return v;
}
bool apply(State& s, const Call& c) {
    const Sen& x = w->sen[size_t(c.s)];
    switch (c.kind) {
        case 'f': s.freq = true; return true;
        case 'a': {
            bool dup = holder(s, key_of(c.s)) >= 0 || w->taken.count(key_of(c.s));
            bool notime = x.cfg.caps & NOTIME;
            switch (c.res) {
                case RS_OK: if (!s.freq || notime || dup) return false; s.reg |= 1ull << c.s; return true;
                case RS_FREQ: return !s.freq;
                case RS_TIME: return notime;
                case RS_MEM: return true;                      // whenever it was, it changed nothing
                default: return dup;
            }
        }
        case 'r': { int h = holder(s, key_of(c.s)); if (h >= 0) s.reg &= ~(1ull << h); return true; }
        case 'n': return c.res == holder(s, key_of(c.s));
        case 's': { int h = holder(s, key_of(c.s)); return c.pairs == (h < 0 ? std::vector<std::pair<int, int>>() : pairs_of(s, h, -1)); }
        default: { int h = holder(s, key_of(c.s)); return c.pairs == (h < 0 ? std::vector<std::pair<int, int>>() : pairs_of(s, -1, h)); }
    }
}
bool explain(State init, State* final) {
    size_t n = w->calls.size();
    std::unordered_set<uint64_t> seen;
    std::function<bool(uint64_t, State)> go = [&](uint64_t done, State s) -> bool {
        if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) { *final = s; return true; }
        if (!seen.insert(done * 131 + s.reg * 2 + s.freq).second) return false;
        uint64_t limit = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1)) limit = std::min(limit, w->calls[i]->resp);
        for (size_t i = 0; i < n; ++i) {
            if ((done >> i & 1) || w->calls[i]->inv > limit) continue;
            State t = s;
            if (apply(t, *w->calls[i]) && go(done | 1ull << i, t)) return true;
        }
        return false;
    };
    return go(0, init);
}
int index_of(const sensor_model::sptr& s) {
    for (size_t i = 0; i < w->sen.size(); ++i) if (w->sen[i].obj == s) return int(i);
    return -1;
}
void ids(const pair_list& l, std::vector<std::pair<int, int>>& out, const char* what) {
    sim::NoPreempt n;
    for (auto& p : l) {
        sim::check(p != nullptr, "null-pair", "%s returned an empty reference", what);
        int a = index_of(p->source()), b = index_of(p->receiver());
        sim::check(a >= 0 && b >= 0, "foreign-pair", "%s returned a pair of sensors never offered", what);
        sim::check(p->hash_key() == sensor_pair::generate_hash_key(key_of(a), key_of(b)), "pair-key", "%s returned a pair with the wrong key", what);
        out.push_back({a, b});
    }
    std::sort(out.begin(), out.end());
    for (size_t i = 1; i < out.size(); ++i) sim::check(out[i - 1] != out[i], "pair-twice", "%s returned the same pair twice", what);
}
std::string show(const Call& c) {
    char b[200]; std::string s;
    static const char* res[] = {"", " no frequencies", " no maximum time", " duplicate", " no memory"};
    snprintf(b, sizeof b, " [client %d %c sensor %d%s", c.client, c.kind, c.s, c.kind == 'n' ? (c.res < 0 ? " none" : " found") : res[c.res]); s = b;
    for (auto& p : c.pairs) { snprintf(b, sizeof b, " %d->%d", p.first, p.second); s += b; }
    snprintf(b, sizeof b, " @%lu-%lu]", (unsigned long)c.inv, (unsigned long)c.resp); return s + b;
}
void run(const sim::Plan& p) {
    sim::set_horizon(p.cfg("crowd") ? 20000000 : 400000, 0);
    { sim::NoPreempt n; w = new PW; }
    auto* mgr = sensor_manager::instance();
    for (auto& o : p.ops) if (o.thr == -1 && o.is("sensor")) {
        Sen s; s.cfg = {o.a[0], int(o.a[1]), uint64_t(o.a[2])};
        s.obj = std::make_shared<sensor_model>(uint64_t(o.a[0]), "s");
        if (s.cfg.caps & SRC) s.obj->src_beam(0, bp_model::csptr(new bp_omni()));
        if (s.cfg.caps & RCV) s.obj->rcv_beam(0, bp_model::csptr(new bp_omni()));
        if (s.cfg.caps & MINR) s.obj->min_range((s.cfg.caps & NEAR) ? 0.5 : 1000.0);
        if (s.cfg.caps & MAXR) s.obj->max_range(5000.0);
        if (!(s.cfg.caps & NOTIME)) s.obj->time_maximum(1.0);
        s.obj->multistatic(s.cfg.group);
        w->sen.push_back(s);
    }
    for (auto& a : w->sen) for (auto& b : w->sen) if (&a != &b && (a.cfg.key == b.cfg.key && a.cfg.key)) a.own_key = false;
    State init; init.freq = p.cfg("freq") != 0;
    if (init.freq) mgr->frequencies(freqs());
    if (p.cfg("plain")) {
        auto plain = std::make_shared<platform_model>(uint64_t(p.cfg("plain")), "plain");
        platform_manager::instance()->add(plain);
        w->taken.insert(uint64_t(p.cfg("plain")));
        for (auto& s : w->sen) if (s.cfg.key == p.cfg("plain")) s.own_key = false;
    }
    // many that are registered already
    int crowd = init.freq ? std::min(50, int(p.cfg("crowd"))) : 0;
    for (int i = 0; i < crowd; ++i) {
        Sen s; s.cfg = {1000 + 7 * i, i % 3 ? SRC | RCV : RCV, uint64_t(i % 5 ? 1 : 2)};
        s.obj = std::make_shared<sensor_model>(uint64_t(s.cfg.key), "s");
        if (s.cfg.caps & SRC) s.obj->src_beam(0, bp_model::csptr(new bp_omni()));
        s.obj->rcv_beam(0, bp_model::csptr(new bp_omni()));
        s.obj->time_maximum(1.0);
        s.obj->multistatic(s.cfg.group);
        init.reg |= 1ull << w->sen.size();
        w->sen.push_back(s);
        mgr->add_sensor(s.obj, &w->listener);
        sim::probe("crowded manager");
    }
    static std::vector<int> mine[8];
    for (auto& o : p.ops) if (o.thr == -1 && o.is("alloc")) sim::fault_alloc(o.a[0], int(o.a[1]));
    run_clients(p, [&](int c, const sim::Op& o) {
        int i = int(o.a[0]);
        if (!o.is("freq") && (i < 0 || size_t(i) >= w->sen.size())) return;
        Sen* s = o.is("freq") ? nullptr : &w->sen[size_t(i)];
        // what follows needs the key: wait until an automatic one is assigned
        if (s && !o.is("add") && s->obj->keyID() == 0) return;
        if (o.is("add") && s->cfg.key == 0) {
            // one client at a time may offer an object whose key is still to be assigned
            static int owner[16]; sim::NoPreempt n;
            if (owner[i] && owner[i] != c + 1) return;
            owner[i] = c + 1;
        }
        // removing an unregistered object that shares its key would remove the other one: user error
        if (o.is("remove") && !s->own_key && std::find(mine[c].begin(), mine[c].end(), i) == mine[c].end()) return;
        Call* x; { sim::NoPreempt n; x = new Call; x->client = c; x->s = i; if (o.is("freq")) x->s = 0; x->inv = sim::seq(); }
        if (o.is("add")) {
            x->kind = 'a';
            try { sim::AllocFaults f; mgr->add_sensor(s->obj, &w->listener); }
            catch (const std::bad_alloc&) { x->res = RS_MEM; sim::probe("rejected: memory"); }
            catch (const sensor_manager::freq_missing&) { x->res = RS_FREQ; sim::probe("rejected: frequencies"); }
            catch (const sensor_manager::time_maximum_missing&) { x->res = RS_TIME; sim::probe("rejected: time"); }
            catch (const platform_manager::duplicate_key&) { x->res = RS_DUP; sim::probe("rejected: duplicate"); }
            if (x->res == RS_OK) { sim::NoPreempt n; mine[c].push_back(i); sim::nontrivial(); }
            sim::check(key_of(i) != 0 || x->res != RS_OK, "no-key", "a sensor was added without a key");
        } else if (o.is("remove")) {
            x->kind = 'r';
            mgr->remove_sensor(s->obj, &w->listener);
            sim::NoPreempt n;
            auto it = std::find(mine[c].begin(), mine[c].end(), i);
            if (it != mine[c].end()) mine[c].erase(it);
        } else if (o.is("fsrc")) { x->kind = 's'; ids(mgr->find_source(s->obj->keyID()), x->pairs, "find_source"); }
        else if (o.is("frcv")) { x->kind = 'd'; ids(mgr->find_receiver(s->obj->keyID()), x->pairs, "find_receiver"); }
        else { x->kind = 'f'; mgr->frequencies(freqs()); }
        sim::NoPreempt n;
        x->resp = sim::seq();
        w->calls.push_back(x);
        sim::trace("%s", show(*x).c_str());
    });
    sim::fault_alloc(-1, 0);
    // quiescent: complete searches, which take part in the history
    for (size_t i = 0; i < w->sen.size(); ++i) {
        if (w->calls.size() + 3 > 60 || key_of(int(i)) == 0) continue;
        for (char k : {'s', 'd', 'n'}) {
            Call* x = new Call; x->client = 99; x->kind = k; x->s = int(i); x->inv = sim::seq();
            if (k == 'n') {
                auto f = mgr->find_sensor(key_of(int(i)));
                x->res = f ? index_of(f) : -1;
            } else ids(k == 's' ? mgr->find_source(key_of(int(i))) : mgr->find_receiver(key_of(int(i))), x->pairs, "search");
            x->resp = sim::seq(); w->calls.push_back(x);
        }
    }
    State fin;
    {
        sim::NoPreempt n;
        if (!explain(init, &fin)) {
            std::string s; for (auto* c : w->calls) s += show(*c);
            sim::violate("pair-history", "no order of the calls explains their results:%s", s.c_str());
        }
    }
    // the complete set, by listing and by key
    std::vector<std::pair<int, int>> all, want = pairs_of(fin, -1, -1);
    auto list = mgr->list();
    ids(list, all, "list");
    if (!want.empty()) sim::probe("pairs at the end");
    sim::check(all == want, "pair-set", "%zu pairs are listed, the registered sensors have %zu", all.size(), want.size());
    for (auto& q : want) {
        auto f = mgr->find(sensor_pair::generate_hash_key(key_of(q.first), key_of(q.second)));
        sim::check(f != nullptr, "pair-find", "pair %d->%d is not found by its key", q.first, q.second);
    }
    // each pair hears of updates through the listener given to add_sensor, exactly once
    w->listener.heard.clear();
    for (auto& q : list) q->notify_update(q.get());
    sim::check(w->listener.heard.size() == list.size(), "pair-listener", "%zu pairs made %zu calls of the listener given to add_sensor", list.size(), w->listener.heard.size());
    // removing every sensor leaves nothing
    std::vector<std::weak_ptr<sensor_pair>> weak(list.begin(), list.end());
    if (w->calls.size() % 2) list.clear();                 // half of the time somebody still holds the pairs
    for (size_t i = 0; i < w->sen.size(); ++i) if (fin.reg >> i & 1) mgr->remove_sensor(w->sen[i].obj, &w->listener);
    sim::check(mgr->list().empty(), "pair-left", "%zu pairs are left after every sensor has been removed", mgr->list().size());
    sim::check(platform_manager::instance()->list().size() == w->taken.size(), "platform-left", "platforms are left after every sensor has been removed");
    w->listener.heard.clear();
    for (auto& q : list) { q->notify_update(q.get()); sim::probe("removed pair still held"); }
    sim::check(w->listener.heard.empty(), "pair-listener", "the listener given to remove_sensor is called by a removed pair");
    list.clear();
    // sensors tell nobody of their wavefronts any more
    for (auto& x : w->sen) {
        usml::eigenrays::eigenray_collection::csptr rays(new usml::eigenrays::eigenray_collection(freqs(), wposition1(), wposition(1, 1), key_of(0)));
        x.obj->notify_wavefront_listeners(x.obj.get(), rays, std::make_shared<usml::eigenverbs::eigenverb_collection>(0));
    }
    for (auto& q : weak) sim::check(q.expired(), "pair-leak", "a pair is not destroyed after its sensors have been removed");
    for (auto& s : w->sen) {
        std::weak_ptr<sensor_model> q = s.obj; s.obj.reset();
        sim::check(q.expired(), "sensor-leak", "a sensor is not destroyed after its removal");
    }
    sensor_manager::reset();
}
sim::Registrar r1({"sensor-pairs", gen, run, "at least one sensor was added"});
}  // namespace
