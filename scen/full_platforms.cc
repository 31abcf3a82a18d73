// Platforms: keys (C08), motion (C09) and the manager singletons (C05).
#include "common.h"
#include <usml/platforms/platforms.h>
#include <usml/sensors/sensor_manager.h>
#include <usml/types/seq_linear.h>
#include <cmath>
#include <list>

using namespace usml::platforms;
using namespace usml::types;
namespace {
typedef std::shared_ptr<platform_model> ref;

// ---------------------------------------------------------------- C08 ----
struct Added { uint64_t inv = 0, resp = 0; uint64_t key = 0; bool automatic = false, ok = false; ref obj; bool removed_by_me = false; };
struct Rem { uint64_t inv, resp, key; bool ok; };
struct KW { std::vector<Added*> adds; std::vector<Rem*> rems; } *kw;

void gen_keys(sim::Rng& r, sim::Plan& p) {
    bool big = r.chance(0.2);
    int clients = r.range(2, 4);
    bool many = r.chance(0.01);
    for (int c = 0; c < clients; ++c) {
        int n = many ? r.range(10, 120) : r.range(1, 6);
        for (int i = 0; i < n; ++i) {
            int k = r.range(0, 12);
            if (k < 6) p.add(c, "auto", {});
            else if (k < 9) p.add(c, "explicit", {(big ? int64_t(1) << 32 : 0) + (r.chance(0.8) ? r.range(1, 8) : r.range(1, 40))});
            else if (k < 10) p.add(c, "again", {});
            else if (k < 12) p.add(c, "remove", {r.range(0, 3)});
            else p.add(c, "find", {r.range(0, 3)});
        }
    }
    p.add(-1, "reset", {r.chance(0.3) ? r.range(1, 5) : 0});
}
void run_keys(const sim::Plan& p) {
    sim::set_horizon(60000 + 1000 * p.ops.size(), 0);
    kw = new KW;
    int pre = int(p.cfg("reset"));
    if (pre) {                                   // a used manager, then a fresh one
        for (int i = 0; i < pre; ++i) platform_manager::instance()->add(std::make_shared<platform_model>(i % 2 ? 0 : 30 + i, "old"));
        platform_manager::reset();
    }
    static std::vector<Added*> mine[8];
    run_clients(p, [&](int c, const sim::Op& o) {
        auto* mgr = platform_manager::instance();
        if (o.is("auto") || o.is("explicit")) {
            Added* a; { sim::NoPreempt n; a = new Added; a->automatic = o.is("auto"); a->obj = std::make_shared<platform_model>(a->automatic ? 0 : uint64_t(o.a[0]), "p"); kw->adds.push_back(a); a->inv = sim::seq(); }
            try { a->key = mgr->add(a->obj); a->ok = true; } catch (const platform_manager::duplicate_key&) { a->key = uint64_t(o.a[0]); }
            sim::NoPreempt n;
            a->resp = sim::seq();
            sim::nontrivial();
            sim::trace("%s -> %lu %s", o.name, (unsigned long)a->key, a->ok ? "" : "duplicate");
            if (a->automatic) {
                sim::probe("automatic key");
                sim::check(a->ok, "auto-duplicate", "adding a platform without a key reported a duplicate");
                sim::check(a->key != 0, "auto-zero", "a platform without a key was given key zero");
            } else sim::check(a->key == uint64_t(o.a[0]), "explicit-key", "a platform with key %ld was added with key %lu", long(o.a[0]), (unsigned long)a->key);
            if (a->ok) {
                sim::check(a->obj->keyID() == a->key, "returned-key", "add returned key %lu but the platform has key %lu", (unsigned long)a->key, (unsigned long)a->obj->keyID());
                mine[c].push_back(a);
            } else sim::probe("duplicate refused");
        } else if (o.is("again")) {              // the same platform once more: refused
            if (mine[c].empty()) return;
            Added* a = mine[c].back();
            if (a->removed_by_me) return;
            bool dup = false;
            try { mgr->add(a->obj); } catch (const platform_manager::duplicate_key&) { dup = true; }
            sim::check(dup, "duplicate", "a platform was added twice under key %lu", (unsigned long)a->key);
            sim::check(a->obj->keyID() == a->key, "returned-key", "a refused addition changed the key");
        } else {
            if (mine[c].empty()) return;
            Added* a = mine[c][size_t(o.a[0]) % mine[c].size()];
            if (a->removed_by_me) return;
            if (o.is("find")) {
                auto f = mgr->find(a->key);
                sim::check(f == a->obj, "find", "the platform added with key %lu is not found under it", (unsigned long)a->key);
            } else {
                Rem* m; { sim::NoPreempt n; m = new Rem{0, 0, a->key, false}; kw->rems.push_back(m); m->inv = sim::seq(); a->removed_by_me = true; }
                m->ok = mgr->remove(a->key);
                sim::NoPreempt n; m->resp = sim::seq();
                sim::check(m->ok, "remove", "key %lu could not be removed", (unsigned long)a->key);
            }
        }
    });
    for (auto* a : kw->adds) {
        if (!a->automatic || !a->ok) continue;
        for (auto* b : kw->adds) {
            if (b == a || !b->ok || b->key != a->key) continue;
            sim::check(!b->automatic, "auto-unique", "two platforms without a key both got key %lu", (unsigned long)a->key);
            sim::check(!(b->resp < a->inv), "auto-unique", "a platform without a key got key %lu, under which another had been added before", (unsigned long)a->key);
            bool between = false;
            for (auto* m : kw->rems) if (m->ok && m->key == a->key && m->resp > a->inv && m->inv < b->resp) between = true;
            sim::check(between, "auto-unique", "key %lu is held by an automatic and an explicit platform at once", (unsigned long)a->key);
        }
    }
    auto* mgr = platform_manager::instance();
    size_t want = 0;
    for (auto* a : kw->adds) if (a->ok && !a->removed_by_me) { ++want; sim::check(mgr->find(a->key) == a->obj, "find", "the platform added with key %lu is not found under it", (unsigned long)a->key); }
    sim::check(mgr->list().size() == want, "list", "%zu platforms are registered, expected %zu", mgr->list().size(), want);
    platform_manager::reset();
}
sim::Registrar r1({"platform-keys", gen_keys, run_keys, "at least one platform was added"});

// ---------------------------------------------------------------- C09 ----
// every motion state is a function of one number, so that torn or mixed
// results can not go unnoticed
struct State { double lat, lon, alt, yaw, pitch, roll, speed; time_t t; };
State st(int64_t k) {
    double x = double(k);
    return {10.0 + 0.01 * x, -20.0 + 0.013 * x, -50.0 - 3.0 * x, 7.0 * x, 2.0 + 1.3 * x, 1.0 + 0.7 * x, 1.0 + 0.25 * x, 1000 + time_t(k)};
}
struct M {                                        // a motion as the harness sees it
    time_t t = 0; double rho = 0, theta = 0, phi = 0; double rot[9] = {0}; double speed = 0;
};
M get(time_t t, const wposition1& p, const orientation& o, double s) {
    M m; m.t = t; m.rho = p.rho(); m.theta = p.theta(); m.phi = p.phi(); m.speed = s;
    boost::numeric::ublas::matrix<double> r = o.rotation();
    for (int i = 0; i < 9; ++i) m.rot[i] = r(size_t(i / 3), size_t(i % 3));
    return m;
}
bool same_pos(const M& a, const M& b) { return std::fabs(a.rho - b.rho) < 1e-6 * 6.4e6 * 1e-6 + 1e-3 && std::fabs(a.theta - b.theta) < 1e-9 && std::fabs(a.phi - b.phi) < 1e-9; }
bool same_rot(const M& a, const M& b) { for (int i = 0; i < 9; ++i) if (!(std::fabs(a.rot[i] - b.rot[i]) < 1e-9)) return false; return true; }
bool same(const M& a, const M& b) { return a.t == b.t && same_pos(a, b) && same_rot(a, b) && std::fabs(a.speed - b.speed) < 1e-12; }
struct Link { double f, r, u, yaw, pitch, roll; };
Link lk(int64_t k) { double x = double(k); return {100 + 10 * x, 20 + 5 * x, -3 - x, 15 + 4 * x, 3 + x, 2 + 0.5 * x}; }
// reference composition, independent of the library's vector classes
void rotmat(double yaw, double pitch, double roll, double R[9]) {
    orientation o(yaw, pitch, roll);
    boost::numeric::ublas::matrix<double> r = o.rotation();
    for (int i = 0; i < 9; ++i) R[i] = r(size_t(i / 3), size_t(i % 3));
}
M compose(const M& h, const Link& l) {
    M m; m.t = h.t; m.speed = h.speed;
    double v[3] = {l.f, l.r, l.u}, w[3];
    for (int i = 0; i < 3; ++i) w[i] = h.rot[3 * i] * v[0] + h.rot[3 * i + 1] * v[1] + h.rot[3 * i + 2] * v[2];
    m.rho = h.rho + w[2];
    m.theta = h.theta - w[0] / h.rho;
    m.phi = h.phi + w[1] / (h.rho * std::sin(h.theta));
    double C[9]; rotmat(l.yaw, l.pitch, l.roll, C);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        m.rot[3 * i + j] = 0;
        for (int k = 0; k < 3; ++k) m.rot[3 * i + j] += h.rot[3 * i + k] * C[3 * k + j];
    }
    return m;
}
M base(int64_t k) {
    State s = st(k);
    return get(s.t, wposition1(s.lat, s.lon, s.alt), orientation(s.yaw, s.pitch, s.roll), s.speed);
}
struct Upd { M m; int64_t k; uint64_t inv = 0, resp = ~0ull; };
struct Att { int child, host; Link l; uint64_t inv = 0, resp = ~0ull, dinv = ~0ull, dresp = ~0ull; };
struct MW {
    std::vector<Upd*> upd[2];           // of host 0 and host 1 (independent roots)
    std::vector<Att*> att;
    ref host[2], child[4];              // child 0..2 may hang on a host, child 3 hangs on child 0
    M child0[4];
    Link deep; bool has_deep = false;
    uint64_t next_k = 10;
} *mw;

void gen_motion(sim::Rng& r, sim::Plan& p) {
    p.add(-1, "deep", {r.chance(0.4)});
    int ups = r.range(1, 2), qs = r.range(1, 3);
    int c = 0;
    bool dead = r.chance(0.3);
    p.add(-1, "reckon", {dead && ups == 1});
    for (int i = 0; i < ups; ++i, ++c) { int n = r.range(1, 6); for (int j = 0; j < n; ++j) p.add(c, dead && ups == 1 && r.chance(0.5) ? "reckon" : "update", {r.chance(0.7) ? 0 : 1, r.range(0, 2)}); }
    { int n = r.range(0, 6); for (int j = 0; j < n; ++j) { int k = r.range(0, 9); p.add(c, k < 4 ? "attach" : k < 7 ? "detach" : k < 9 ? "clash" : "children", {r.range(0, 2), r.range(0, 1)}); } ++c; }
    for (int i = 0; i < qs; ++i, ++c) { int n = r.range(1, 6); for (int j = 0; j < n; ++j) p.add(c, "query", {r.range(0, 5), r.chance(0.75) ? 0 : r.range(1, 2)}); }
}

// is m the motion of host h at some update that may be current in [qi,qr]?
bool host_ok(int h, const M& m, uint64_t qi, uint64_t qr, int what) {
    for (auto* u : mw->upd[h]) {
        if (u->inv > qr) continue;
        bool stale = false;
        for (auto* v : mw->upd[h]) if (v != u && v->inv > u->resp && v->resp < qi) stale = true;
        if (stale) continue;
        const M& x = u->m;
        if (what == 0 ? same(x, m) : what == 1 ? same_pos(x, m) : same_rot(x, m)) return true;
    }
    return false;
}
bool child_ok(int c, const M& m, uint64_t qi, uint64_t qr, int what, const Link* l2) {
    // never attached, or not yet for certain
    bool was = false;
    for (auto* a : mw->att) if (a->child == c && a->resp < qi) was = true;
    M init = mw->child0[c];
    if (l2) {                                    // the grandchild follows child 0 from the start
        M x = compose(init, *l2);
        if (!was && (what == 0 ? same(x, m) : what == 1 ? same_pos(x, m) : same_rot(x, m))) return true;
    } else if (!was && (what == 0 ? same(init, m) : what == 1 ? same_pos(init, m) : same_rot(init, m))) return true;
    // the attachments this may stem from: not certainly followed by a later one
    for (auto* a : mw->att) {
        if (a->child != c || a->inv > qr) continue;
        bool later = false;
        for (auto* b : mw->att) if (b != a && b->child == c && b->inv > a->resp && b->resp < qi) later = true;
        if (later) continue;
        // updates after the detachment do not reach the child
        uint64_t lim = a->dresp < qr ? a->dresp : qr;
        for (auto* u : mw->upd[a->host]) {
            if (u->inv > lim) continue;
            bool stale = false;
            uint64_t cut = a->dinv < qi ? a->dinv : qi;      // up to here the link certainly holds
            for (auto* v : mw->upd[a->host]) if (v != u && v->inv > u->resp && v->resp < cut) stale = true;
            if (stale) continue;
            M x = compose(u->m, a->l);
            if (l2) x = compose(x, *l2);
            if (what == 0 ? same(x, m) : what == 1 ? same_pos(x, m) : same_rot(x, m)) return true;
        }
    }
    return false;
}
void run_motion(const sim::Plan& p) {
    sim::set_horizon(60000, 0);
    mw = new MW;
    int64_t k0 = 0;
    for (int h = 0; h < 2; ++h) {
        State s = st(k0);
        mw->host[h] = std::make_shared<platform_model>(uint64_t(1 + h), "host", s.t, wposition1(s.lat, s.lon, s.alt), orientation(s.yaw, s.pitch, s.roll), s.speed);
        auto* u = new Upd; u->k = k0; u->m = base(k0); u->inv = u->resp = sim::seq();
        mw->upd[h].push_back(u);
        ++k0;
    }
    for (int c = 0; c < 4; ++c) {
        State s = st(200 + c);
        mw->child[c] = std::make_shared<platform_model>(uint64_t(10 + c), "child", s.t, wposition1(s.lat, s.lon, s.alt), orientation(s.yaw, s.pitch, s.roll), s.speed);
        mw->child0[c] = base(200 + c);
    }
    if (p.cfg("deep")) {
        mw->deep = lk(40); mw->has_deep = true;
        const Link& l = mw->deep;
        mw->child[0]->add_child(mw->child[3], bvector(l.f, l.r, l.u), orientation(l.yaw, l.pitch, l.roll));
        sim::check(mw->child[3]->host() == mw->child[0].get(), "host", "the grandchild does not report its host");
    }
    // the structure client's own view (it is the only one that attaches and detaches)
    static Att* cur[4];
    static ref clash;
    run_clients(p, [&](int, const sim::Op& o) {
        if (o.is("update") || o.is("reckon")) {
            int h = int(o.a[0]);
            Upd* u; State s; bool reck = o.is("reckon") && p.cfg("reckon");
            {
                sim::NoPreempt n;
                u = new Upd; u->k = int64_t(mw->next_k++); s = st(u->k);
                if (reck) {                       // dead reckoning from the only updater's last state
                    Upd* b = mw->upd[h].back();
                    double dt = double(s.t - b->m.t), d = b->m.speed * dt;
                    double w[3] = {b->m.rot[0] * d, b->m.rot[3] * d, b->m.rot[6] * d};
                    u->m = b->m; u->m.t = s.t;
                    u->m.rho = b->m.rho + w[2];
                    u->m.theta = b->m.theta - w[0] / b->m.rho;
                    u->m.phi = b->m.phi + w[1] / (b->m.rho * std::sin(b->m.theta));
                    sim::probe("dead reckoning");
                } else u->m = base(u->k);
                mw->upd[h].push_back(u);
                u->inv = sim::seq();
            }
            auto type = platform_model::update_type_enum(o.a[1]);
            if (reck) mw->host[h]->update(s.t, type);
            else mw->host[h]->update(s.t, wposition1(s.lat, s.lon, s.alt), orientation(s.yaw, s.pitch, s.roll), s.speed, type);
            sim::NoPreempt n; u->resp = sim::seq();
            sim::nontrivial();
        } else if (o.is("attach")) {
            int c = int(o.a[0]), h = int(o.a[1]);
            if (cur[c]) {                         // attached already: the same host refuses
                if (cur[c]->host != h) return;
                bool dup = false;
                try { mw->host[h]->add_child(mw->child[c], bvector(1, 2, 3), orientation(9, 9, 9)); } catch (const std::exception&) { dup = true; }
                sim::check(dup, "attach", "a child was attached twice");
                sim::check(mw->child[c]->host() == mw->host[h].get(), "host", "after a refused attachment the child does not report its host");
                sim::probe("attachment refused");
                return;
            }
            Att* a; { sim::NoPreempt n; a = new Att; a->child = c; a->host = h; a->l = lk(int64_t(mw->next_k++ % 30)); mw->att.push_back(a); a->inv = sim::seq(); }
            mw->host[h]->add_child(mw->child[c], bvector(a->l.f, a->l.r, a->l.u), orientation(a->l.yaw, a->l.pitch, a->l.roll));
            { sim::NoPreempt n; a->resp = sim::seq(); cur[c] = a; }
            sim::check(mw->child[c]->host() == mw->host[h].get(), "host", "an attached child does not report its host");
            sim::probe("attached");
        } else if (o.is("detach")) {
            int c = int(o.a[0]);
            if (!cur[c]) {
                bool ok = mw->host[size_t(o.a[1])]->remove_child(mw->child[c]->keyID());
                sim::check(!ok, "detach", "a child that was not attached was detached");
                return;
            }
            { sim::NoPreempt n; cur[c]->dinv = sim::seq(); }
            bool ok = mw->host[size_t(cur[c]->host)]->remove_child(mw->child[c]->keyID());
            { sim::NoPreempt n; cur[c]->dresp = sim::seq(); }
            sim::check(ok, "detach", "an attached child could not be detached");
            sim::check(mw->child[c]->host() == nullptr, "host", "a detached child still reports a host");
            cur[c] = nullptr;
            sim::probe("detached");
        } else if (o.is("clash")) {               // another platform with the key of an attached child
            int c = int(o.a[0]);
            if (!cur[c]) return;
            State s = st(300);
            auto other = std::make_shared<platform_model>(mw->child[c]->keyID(), "clash", s.t, wposition1(s.lat, s.lon, s.alt), orientation(s.yaw, s.pitch, s.roll), s.speed);
            bool dup = false;
            try { mw->host[size_t(cur[c]->host)]->add_child(other); } catch (const std::exception&) { dup = true; }
            sim::check(dup, "attach", "two children with one key were attached");
            sim::check(other->host() == nullptr, "host", "a platform whose attachment was refused reports a host");
            time_t t; wposition1 pos; orientation ori; double sp;
            other->get_motion(&t, &pos, &ori, &sp);
            sim::NoPreempt n;
            sim::check(same(get(t, pos, ori, sp), base(300)), "attach", "a refused attachment moved the platform");
            sim::check(mw->child[c]->host() == mw->host[size_t(cur[c]->host)].get(), "host", "a refused attachment changed another child's host");
        } else if (o.is("children")) {
            for (int h = 0; h < 2; ++h) {
                std::list<ref> l = mw->host[h]->children();
                sim::NoPreempt n;
                std::set<uint64_t> got, want;
                for (auto& c : l) got.insert(c->keyID());
                for (int c = 0; c < 3; ++c) if (cur[c] && cur[c]->host == h) want.insert(mw->child[c]->keyID());
                sim::check(got == want && got.size() == l.size(), "children", "host %d lists %zu children, %zu are attached", h, l.size(), want.size());
            }
        } else {
            int which = int(o.a[0]), what = int(o.a[1]);
            if (which == 5 && !mw->has_deep) which = 2;
            ref obj = which < 2 ? mw->host[which] : mw->child[which - 2];
            uint64_t qi, qr; M m;
            time_t t = 0; wposition1 pos; orientation ori; double sp = 0;
            { sim::NoPreempt n; qi = sim::seq(); }
            if (what == 0) obj->get_motion(&t, &pos, &ori, &sp);
            else if (what == 1) pos = obj->position();
            else ori = obj->orient();
            sim::NoPreempt n;
            qr = sim::seq();
            m = get(t, pos, ori, sp);
            bool ok = which < 2 ? host_ok(which, m, qi, qr, what)
                    : which == 5 ? child_ok(0, m, qi, qr, what, &mw->deep)
                                 : child_ok(which - 2, m, qi, qr, what, nullptr);
            const char* kind = which < 2 ? "host" : which == 5 ? "grandchild" : "child";
            sim::check(ok, which < 2 ? "motion" : "child-motion", "%s %d: the %s returned (time %ld, rho %.3f, theta %.9f, phi %.9f, speed %.3f) is not one update of %s",
                       kind, which, what == 0 ? "motion" : what == 1 ? "position" : "orientation", long(m.t), m.rho, m.theta, m.phi, m.speed, which < 2 ? "the platform" : "its host composed with its mounting");
            sim::probe(which < 2 ? "host queried" : "child queried");
        }
    });
    // settled: every attached child is where its host says
    for (int c = 0; c < 4; ++c) {
        if (c == 3 && !mw->has_deep) continue;
        time_t t; wposition1 pos; orientation ori; double sp;
        mw->child[c]->get_motion(&t, &pos, &ori, &sp);
        uint64_t q = sim::seq();
        sim::check(child_ok(c == 3 ? 0 : c, get(t, pos, ori, sp), q, q + 1, 0, c == 3 ? &mw->deep : nullptr), "child-motion", "in the end child %d is not where its host has it", c);
        if (c < 3) sim::check(mw->child[c]->host() == (cur[c] ? mw->host[size_t(cur[c]->host)].get() : nullptr), "host", "in the end child %d reports the wrong host", c);
    }
    // hosts go away: their children have none
    for (auto& h : mw->host) h.reset();
    for (int c = 0; c < 3; ++c) sim::check(mw->child[c]->host() == nullptr, "host", "child %d still reports a host that no longer exists", c);
}
sim::Registrar r2({"platform-motion", gen_motion, run_motion, "at least one update while children, queries and attachments interleave"});

// ---------------------------------------------------------------- C05 ----
void gen_single(sim::Rng& r, sim::Plan& p) {
    int rounds = r.range(1, 3);
    for (int i = 0; i < rounds; ++i) p.add(-2, "round", {r.range(2, 5), r.range(0, 2), r.range(0, 1)});
}
void run_single(const sim::Plan& p) {
    using usml::sensors::sensor_manager;
    sim::set_horizon(60000, 0);
    sim::nontrivial();
    for (auto& o : p.ops) {
        if (o.thr != -2) continue;
        int clients = int(o.a[0]), mode = int(o.a[1]);
        static void* pm[8]; static void* sm[8]; static std::vector<uint64_t> keys;
        keys.clear();
        for (int c = 0; c < clients; ++c) {
            pm[c] = sm[c] = nullptr;
            sim::spawn([c, mode] {
                if (mode != 1 || c % 2) pm[c] = platform_manager::instance();
                if (mode != 0) sm[c] = sensor_manager::instance();
                if (pm[c]) {                     // usable at once
                    uint64_t k = static_cast<platform_manager*>(pm[c])->add(std::make_shared<platform_model>(0, "p"));
                    sim::NoPreempt n; keys.push_back(k);
                }
                if (sm[c]) sim::check(static_cast<sensor_manager*>(sm[c])->list().empty(), "singleton", "a fresh sensor manager holds pairs");
            });
        }
        sim::join_all();
        void *p0 = platform_manager::instance(), *s0 = sensor_manager::instance();
        for (int c = 0; c < clients; ++c) {
            sim::check(!pm[c] || pm[c] == p0, "singleton", "two callers received different platform managers");
            sim::check(!sm[c] || sm[c] == s0, "singleton", "two callers received different sensor managers");
        }
        std::set<uint64_t> uniq(keys.begin(), keys.end());
        sim::check(uniq.size() == keys.size(), "singleton", "%zu platforms were added under %zu keys", keys.size(), uniq.size());
        sim::check(platform_manager::instance()->list().size() == keys.size(), "singleton", "%zu of %zu platforms are registered", platform_manager::instance()->list().size(), keys.size());
        for (auto k : keys) sim::check(k >= 1 && k <= keys.size(), "fresh", "a fresh platform manager gave out key %lu", (unsigned long)k);
        sim::check(sensor_manager::instance()->frequencies() == nullptr, "fresh", "a fresh sensor manager already has frequencies");
        sensor_manager::instance()->frequencies(seq_vector::csptr(new seq_linear(100.0, 100.0, 2)));
        if (o.a[2]) platform_manager::reset();
        sensor_manager::reset();                 // resets the platform manager as well
        sim::check(platform_manager::instance()->list().empty(), "fresh", "platforms survive a reset");
        sim::check(sensor_manager::instance()->list().empty() && sensor_manager::instance()->frequencies() == nullptr, "fresh", "sensor manager settings survive a reset");
        platform_manager::reset(); sensor_manager::reset();
    }
}
sim::Registrar r3({"manager-singletons", gen_single, run_single, "several threads ask for a manager at once"});
}  // namespace
