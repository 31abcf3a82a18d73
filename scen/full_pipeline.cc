// The acoustic pipeline: sensors move, background tasks compute, pairs publish.
// C12: what is published once work settles.  C13: that it is what a sequential
// computation gives, and never changes.
#include "pipeline.h"
#include <functional>
using namespace pl;
namespace {

enum { SRC = 1, RCV = 2, REVERB = 4, RANGE = 8, LINE = 16 };
enum { M_SMALL = 0, M_BIG = 1, M_FORCE = 2, M_NO = 3 };

struct Motion { uint64_t inv = 0, resp = ~0ull; wposition1 pos; orientation orient; double speed = 0; };
struct Upd { uint64_t inv = 0, resp = ~0ull; int type = 0; wposition1 pos; orientation orient; bool launched = false; size_t id = 0; bool hosted = false; };
struct Pub { uint64_t seq; eigenray_collection::csptr rays; eigenverb_collection::csptr verbs; uint64_t dr, dv; };
struct Window { uint64_t inv, resp; };
struct Sen;
struct Heard : wavefront_listener {
    Sen* s = nullptr;
    void update_wavefront_data(const sensor_model* sensor, eigenray_collection::csptr r, eigenverb_collection::csptr v) override;
};
struct Sen {
    int idx = 0, caps = 0; uint64_t group = 0, key = 0; bool hosted = false;
    sensor_model::sptr obj;
    uint64_t add_inv = 0, add_resp = 0;
    std::vector<Upd> upds; std::vector<Motion> motion;
    std::vector<Pub> pubs;
    std::vector<Window> needs;
    std::vector<std::pair<uint64_t, int>> sched_inv;     // schedule set calls: (inv, index)
    std::vector<std::pair<uint64_t, bool>> sched_resp;   // their returns and whether they call for an update
    Heard heard;
};
struct Snap { uint64_t seq; const void* f[5]; };
struct Series { uint64_t seq; rvbts_collection::csptr ts; std::vector<biverb_collection::csptr> bi; };
struct PairHeard : update_listener<sensor_pair> {
    std::map<std::string, std::vector<Series>> series;                        // every published time series
    std::map<std::string, std::vector<biverb_collection::csptr>> verbs;       // every bistatic product seen
    std::map<const sensor_pair*, std::vector<Snap>> snaps;
    void notify_update(const sensor_pair* p) override {
        Snap s; { sim::NoPreempt n; s.seq = sim::seq(); }
        auto bi = p->biverbs(); auto ts = p->rvbts();
        s.f[0] = p->dirpaths().get(); s.f[1] = p->src_eigenverbs().get(); s.f[2] = p->rcv_eigenverbs().get(); s.f[3] = p->biverbs().get(); s.f[4] = p->rvbts().get();
        sim::NoPreempt n;
        snaps[p].push_back(s);
        auto& all = verbs[p->keyID()];
        if (bi && std::find(all.begin(), all.end(), bi) == all.end()) all.push_back(bi);
        auto& l = series[p->keyID()];
        if (ts && (l.empty() || l.back().ts != ts)) l.push_back({s.seq, ts, all});
        sim::trace("pair %s notified", p->keyID().c_str());
    }
};
struct Kept { std::shared_ptr<const void> p; int kind; uint64_t d; };
struct Freq { uint64_t inv, resp; seq_vector::csptr f; };
struct World {
    std::vector<Freq> freq;                              // frequencies of the manager, set by one client
    std::vector<Sen*> sen;
    platform_model::sptr host; std::vector<Motion> host_motion;
    std::vector<platform_model::sptr> plain;             // targets that never move
    ocean_model::csptr ocean;
    PairHeard pairs;
    std::vector<Kept> kept;
    std::vector<transmit_list> schedules;
    uint64_t move_no = 0;
    bool bits = false;
} *w;

void keep(const eigenray_collection::csptr& c) { if (c) { sim::NoPreempt n; w->kept.push_back({c, 0, dig(*c)}); } }
void keep(const eigenverb_collection::csptr& c) { if (c) { sim::NoPreempt n; w->kept.push_back({c, 1, dig(*c)}); } }
void keep(const biverb_collection::csptr& c) { if (c) { sim::NoPreempt n; w->kept.push_back({c, 2, dig(*c)}); } }
void keep(const rvbts_collection::csptr& c) { if (c) { sim::NoPreempt n; w->kept.push_back({c, 3, dig(*c)}); } }
void check_kept() {
    static const char* name[] = {"eigenray collection", "eigenverb collection", "bistatic eigenverb collection", "reverberation time series"};
    for (auto& k : w->kept) {
        uint64_t d = k.kind == 0 ? dig(*static_cast<const eigenray_collection*>(k.p.get())) : k.kind == 1 ? dig(*static_cast<const eigenverb_collection*>(k.p.get()))
                   : k.kind == 2 ? dig(*static_cast<const biverb_collection*>(k.p.get())) : dig(*static_cast<const rvbts_collection*>(k.p.get()));
        sim::check(d == k.d, "published-changed", "a published %s changed afterwards", name[k.kind]);
    }
}

void Heard::update_wavefront_data(const sensor_model* sensor, eigenray_collection::csptr r, eigenverb_collection::csptr v) {
    {
        sim::NoPreempt n;
        sim::check(sensor == s->obj.get(), "wrong-sensor", "results of sensor %d are announced for another sensor", s->idx);
        sim::check(r && v, "null-product", "sensor %d announced an empty result", s->idx);
        Pub p{sim::seq(), r, v, dig(*r), dig(*v)};
        s->pubs.push_back(p);
        sim::trace("sensor %d publishes alt %.1f", s->idx, r->source_position().altitude());
        sim::nontrivial();
    }
    sim::point("publication");
}

void gen(sim::Rng& r, sim::Plan& p, bool bits) {
    int n = r.range(1, 3);
    bool host = !bits && r.chance(0.3);
    p.add(-1, "threads", {r.range(1, 4)});
    p.add(-1, "density", {r.range(3, 10)});
    p.add(-1, "bits", {bits});
    p.add(-1, "freqs", {r.chance(0.3)});
    p.add(-1, "tmax", {r.range(2, 4)});
    p.add(-1, "big", {r.chance(0.3) ? r.range(1, 2) : 0});       // keys beyond 32 bits
    p.add(-1, "times", {r.chance(0.5)});         // sensors listen for different times
    // limits of the propagation: bounces at the bottom, at the surface, intensity of a ray
    static const int bounces[] = {0, 1, 2, 999};
    if (bits && r.chance(0.5)) p.add(-1, "limits", {bounces[r.below(4)], bounces[r.below(4)], r.chance(0.5) ? -300 : r.range(-90, -20)});
    bool rev = r.chance(0.85);
    for (int i = 0; i < n; ++i) {
        int caps = r.chance(0.75) ? SRC | RCV : r.chance(0.5) ? SRC : RCV;
        if (rev && r.chance(0.9)) caps |= REVERB;
        if (r.chance(0.2)) caps |= RANGE;
        if (r.chance(0.4)) caps |= LINE;
        p.add(-1, "sensor", {i + 1, caps, r.chance(0.8) ? 1 : 0, host && i < 2});
    }
    p.add(-1, "plain", {r.range(0, 3)});         // bit 0: a near target, bit 1: a far one
    int clients = 0;
    for (int i = 0; i < n; ++i) {
        int c = clients++;
        bool hosted = host && i < 2;
        if (!hosted) p.add(c, "add", {i});
        if (hosted && i) continue;               // the host is moved by the first client
        int m = r.range(1, bits ? 3 : 5);
        for (int k = 0; k < m; ++k) {
            int t = r.range(0, 9);
            p.add(c, "move", {i, t < 3 ? M_SMALL : t < 7 ? M_BIG : t < 9 ? M_FORCE : M_NO, r.range(0, 2)});
            if (r.chance(0.25)) p.add(c, "sleep", {r.range(1, 50)});
        }
    }
    for (int i = 0; i < n; ++i) {
        if (!r.chance(0.7)) continue;
        int c = clients++, m = r.range(1, 3);
        for (int k = 0; k < m; ++k) { if (r.chance(0.4)) p.add(c, "sleep", {r.range(1, 80)}); p.add(c, "sched", {i, r.range(0, 5), r.chance(0.4)}); }
    }
    if (r.chance(0.5)) { int c = clients++, m = r.range(1, 4); for (int k = 0; k < m; ++k) { p.add(c, "sleep", {r.range(1, 60)}); p.add(c, "read", {}); } }
    if (r.chance(0.3)) { int c = clients++; p.add(c, "busy", {r.range(1, 3), r.range(1, 30)}); }
    if (r.chance(0.3)) { int c = clients++, m = r.range(1, 3); for (int k = 0; k < m; ++k) { p.add(c, "sleep", {r.range(1, 80)}); p.add(c, "freq", {r.range(0, 1)}); } }
    p.add(-1, "settle", {r.chance(0.5)});
    p.add(-1, "final", {r.range(0, 2), int64_t(r.next() >> 40)});
}
// motions of chosen size along one axis at a time, many of them just below or above a threshold
void gen12m(sim::Rng& r, sim::Plan& p) {
    int n = r.chance(0.6) ? 1 : 2;
    bool host = r.chance(0.25);
    p.add(-1, "threads", {r.range(1, 3)});
    p.add(-1, "density", {r.range(5, 10)});
    p.add(-1, "bits", {0});
    p.add(-1, "freqs", {0});
    p.add(-1, "tmax", {1});
    p.add(-1, "cheap", {1});
    p.add(-1, "line", {r.chance(0.4)});          // on the date line
    p.add(-1, "yaw", {r.chance(0.4) ? 176 + r.range(0, 8) : r.range(-170, 170)});
    for (int i = 0; i < n; ++i) p.add(-1, "sensor", {i + 1, SRC | RCV | (r.chance(0.3) ? REVERB : 0), r.chance(0.7) ? 1 : 0, host && i < 2});
    p.add(-1, "plain", {r.range(0, 3)});
    bool lack = r.chance(0.4), change = (n > 1 || !lack) && r.chance(0.3);
    int clients = 0;
    for (int i = 0; i < n; ++i) {
        int c = clients++;
        bool hosted = host && i < 2;
        if (!hosted) p.add(c, "add", {i});
        if (hosted && i) continue;
        int m = r.range(3, 14);
        int axis = r.range(0, 5), sign = r.chance(0.5) ? 1 : -1, size = r.range(0, 6);
        bool creep = r.chance(0.5);
        for (int k = 0; k < m; ++k) {
            if (n == 1 && lack && r.chance(0.3)) p.add(c, "freq", {r.range(-1, 1)});
            if (!creep || r.chance(0.2)) { axis = r.range(0, 5); sign = r.chance(0.5) ? 1 : -1; size = r.range(0, 6); }
            int t = r.range(0, 19);
            if (r.chance(0.15)) p.add(c, "back", {i});
            else p.add(c, "step", {i, axis, size, sign, t < 17 ? 0 : t < 18 ? 1 : 2});
            if (r.chance(0.15)) p.add(c, "sleep", {r.range(1, 50)});
        }
    }
    if (r.chance(0.3)) { int c = clients++; p.add(c, "busy", {r.range(1, 3), r.range(1, 30)}); }
    if (change) { int c = clients++, m = r.range(1, 4); for (int k = 0; k < m; ++k) { p.add(c, "freq", {r.range(0, 1)}); p.add(c, "sleep", {r.range(1, 60)}); } }
    p.add(-1, "settle", {r.chance(0.5)});
    p.add(-1, "final", {r.range(0, 2), int64_t(r.next() >> 40)});
}
void gen12(sim::Rng& r, sim::Plan& p) { gen(r, p, false); }
void gen13(sim::Rng& r, sim::Plan& p) { gen(r, p, true); }

// where mover `i` goes next: every position is unique
void next_motion(int i, int kind, int axis, wposition1* pos, orientation* orient) {
    sim::NoPreempt n;
    uint64_t k = ++w->move_no;
    bool hosted = w->sen[size_t(i)]->hosted;
    const wposition1 cur = hosted ? w->host->position() : w->sen[size_t(i)]->obj->position();
    orientation co = hosted ? w->host->orient() : w->sen[size_t(i)]->obj->orient();
    bool big = kind == M_BIG || (kind == M_FORCE && k % 2);
    double lat = cur.latitude() + 1e-7 * double(1 + k % 5), alt = cur.altitude(), yaw = co.yaw();
    double sgn = alt > -60 ? -1.0 : alt < -140 ? 1.0 : (k % 2 ? 1.0 : -1.0);
    if (axis == 0 || !big) alt += sgn * (big ? 7.0 + double(k % 4) : 0.2 + 0.01 * double(k % 7));
    else if (axis == 1) yaw = std::fmod(yaw + 11.0, 90.0);
    else { alt += sgn * 6.5; yaw = std::fmod(yaw + 1.0, 90.0); }
    *pos = wposition1(lat, cur.longitude(), alt);
    *orient = orientation(yaw, 0.0, 0.0);
}
struct Task : thread_task { int ms; explicit Task(int m) : ms(m) {} void run() override { thread_task::sleep(ms); } };

double wrapped(double a) { while (a > 180.0) a -= 360.0; while (a < -180.0) a += 360.0; return a; }
// a step of a fraction of the threshold of one axis, or back to where the last computation was made
void next_step(int i, int axis, int size, int sign, wposition1* pos, orientation* orient) {
    static const double part[] = {0.3, 0.5, 0.7, 0.9999, 1.0001, 1.4, 2.5};
    sim::NoPreempt n;
    double k = 1e-10 * double(++w->move_no);
    Sen* s = w->sen[size_t(i)];
    const wposition1 cur = s->hosted ? w->host->position() : s->obj->position();
    orientation co = s->hosted ? w->host->orient() : s->obj->orient();
    double v[6] = {cur.latitude(), cur.longitude(), cur.altitude(), co.yaw(), co.pitch(), co.roll()};
    static const double limit[6] = {motion_thresholds::lat_threshold, motion_thresholds::lon_threshold, motion_thresholds::alt_threshold,
                                    motion_thresholds::yaw_threshold, motion_thresholds::pitch_threshold, motion_thresholds::roll_threshold};
    if (axis < 0) {
        for (size_t j = s->upds.size(); j-- > 0;) if (s->upds[j].launched && !s->hosted) {
            auto p = s->upds[j].pos; auto o = s->upds[j].orient;
            double u[6] = {p.latitude(), p.longitude(), p.altitude(), o.yaw(), o.pitch(), o.roll()};
            memcpy(v, u, sizeof v);
            break;
        }
    } else {
        double d = double(sign) * part[size] * limit[axis];
        if (axis == 2 && (v[2] + d > -5.0 || v[2] + d < -190.0)) d = -d;
        if (axis > 3 && std::fabs(v[axis] + d) > 60.0) d = -d;
        v[axis] += d;
    }
    *pos = wposition1(v[0] + k, wrapped(v[1]), v[2]);
    *orient = orientation(wrapped(v[3]), v[4], v[5]);
}

void do_motion(int i, int kind, const wposition1& pos, const orientation& ori);
void do_move(int i, int kind, int axis) {
    wposition1 pos; orientation ori;
    next_motion(i, kind, axis, &pos, &ori);
    do_motion(i, kind, pos, ori);
}
void do_motion(int i, int kind, const wposition1& pos, const orientation& ori) {
    Sen* s = w->sen[size_t(i)];
    auto type = kind == M_FORCE ? platform_model::FORCE_UPDATE : kind == M_NO ? platform_model::NO_UPDATE : platform_model::TEST_THRESHOLD;
    std::vector<Sen*> affected; platform_model* target = s->obj.get();
    if (s->hosted) { target = w->host.get(); for (auto* x : w->sen) if (x->hosted) affected.push_back(x); } else affected.push_back(s);
    std::vector<size_t> before; uint64_t inv;
    {
        sim::NoPreempt n;
        for (auto* x : affected) before.push_back(x->obj->wavefront_task() ? x->obj->wavefront_task()->id() : ~size_t(0));
        inv = sim::seq();
        if (s->hosted) w->host_motion.push_back({inv, ~0ull, pos, ori, 2.0});
        else s->motion.push_back({inv, ~0ull, pos, ori, 1.5});
    }
    target->update(0, pos, ori, s->hosted ? 2.0 : 1.5, type);
    sim::NoPreempt n;
    uint64_t resp = sim::seq();
    if (s->hosted) w->host_motion.back().resp = resp; else s->motion.back().resp = resp;
    for (size_t k = 0; k < affected.size(); ++k) {
        Sen* x = affected[k];
        Upd u; u.inv = inv; u.resp = resp; u.type = int(type); u.pos = x->obj->position(); u.orient = x->obj->orient(); u.hosted = s->hosted;
        if (s->hosted) x->motion.push_back({inv, resp, u.pos, u.orient, 2.0});
        size_t id = x->obj->wavefront_task() ? x->obj->wavefront_task()->id() : ~size_t(0);
        u.launched = id != before[k]; u.id = id;
        x->upds.push_back(u);
        sim::trace("sensor %d moved type %d alt %.2f yaw %.1f%s", x->idx, u.type, u.pos.altitude(), u.orient.yaw(), u.launched ? " launched" : "");
    }
}
void do_add(int i) {
    Sen* s = w->sen[size_t(i)];
    { sim::NoPreempt n; s->add_inv = sim::seq(); }
    sensor_manager::instance()->add_sensor(s->obj, &w->pairs);
    sim::NoPreempt n; s->add_resp = sim::seq();
}
bool paired(const Sen* a, const Sen* b) {            // pair a -> b exists when both are registered
    if (!(a->caps & SRC) || !(b->caps & RCV)) return false;
    return a == b || (a->group && a->group == b->group);
}
void settle() {
    thread_task::wait();
    sim::check(thread_task::num_active() == 0, "not-settled", "background work is left after waiting for it");
}

// launch decisions of one sensor, in order
void check_launches(Sen* s) {
    // pairs created around the updates
    s->needs.clear();
    s->needs.push_back({0, 0});
    for (auto* x : w->sen) {
        if (!x->add_resp) continue;
        if (x == s) { if (paired(s, s)) s->needs.push_back({s->add_inv, s->add_resp}); continue; }
        if (paired(s, x) || paired(x, s)) s->needs.push_back({std::max(s->add_inv, x->add_inv), std::max(s->add_resp, x->add_resp)});
    }
    wposition1 rp; orientation ro; bool have_ref = false, pending = false, unsure = false;
    for (size_t k = 0; k < s->upds.size(); ++k) {
        Upd& u = s->upds[k];
        bool far = !have_ref, definite = false, possible = false;
        if (have_ref) {
            double ratio = 0;                    // the largest change, in thresholds
            for (double q : {std::fabs(u.pos.latitude() - rp.latitude()) / motion_thresholds::lat_threshold, std::fabs(wrapped(u.pos.longitude() - rp.longitude())) / motion_thresholds::lon_threshold,
                             std::fabs(u.pos.altitude() - rp.altitude()) / motion_thresholds::alt_threshold, std::fabs(wrapped(u.orient.yaw() - ro.yaw())) / motion_thresholds::yaw_threshold,
                             std::fabs(wrapped(u.orient.pitch() - ro.pitch())) / motion_thresholds::pitch_threshold, std::fabs(wrapped(u.orient.roll() - ro.roll())) / motion_thresholds::roll_threshold}) ratio = std::max(ratio, q);
            far = ratio >= 1.0 + 1e-9;
            possible = std::fabs(ratio - 1.0) < 1e-9;            // too close to call
            if (std::fabs(ratio - 1.0) < 1e-3) sim::probe(far ? "motion just above a threshold" : "motion just below a threshold");
            if (std::fabs(u.orient.yaw() - ro.yaw()) > 180.0 && !far) sim::probe("small turn through south");
        }
        for (auto& q : s->needs) {
            bool maybe_used = false, surely_used = false;
            for (size_t j = 0; j < k; ++j) {
                const Upd& v = s->upds[j];
                if (v.type == platform_model::NO_UPDATE) continue;
                if (v.resp > q.inv) maybe_used = true;
                if (v.inv > q.resp) surely_used = true;
            }
            if (q.resp < u.inv && !maybe_used) definite = true;
            if (q.inv < u.resp && !surely_used) possible = true;
        }
        if (w->freq.empty()) sim::violate("harness", "no frequencies");
        bool some = false, none = false;         // frequencies during the update
        for (size_t j = 0; j < w->freq.size(); ++j) {
            uint64_t end = j + 1 < w->freq.size() ? w->freq[j + 1].resp : ~0ull;
            if (w->freq[j].inv <= u.resp && end >= u.inv) (w->freq[j].f ? some : none) = true;
        }
        if (u.type != platform_model::NO_UPDATE && none) {
            sim::probe("update without frequencies");
            sim::check(some || !u.launched, "launch-without-frequencies", "sensor %d: a computation was launched without frequencies", s->idx);
            if (u.launched) { pending = unsure = false; rp = u.pos; ro = u.orient; have_ref = true; }
            else if (u.type == platform_model::FORCE_UPDATE || far || definite) pending = true;
            else if (possible) unsure = true;
            continue;
        }
        const char* why = nullptr;
        definite = definite || pending; possible = possible || unsure;
        if (pending && u.type != platform_model::NO_UPDATE) sim::probe("update after the frequencies returned");
        if (u.type == platform_model::NO_UPDATE) {
            sim::check(!u.launched, "needless-launch", "sensor %d: an update that was not to be computed launched a computation", s->idx);
        } else if (u.type == platform_model::FORCE_UPDATE || far || definite) {
            why = u.type == platform_model::FORCE_UPDATE ? "forced" : far ? "above a threshold" : "the first since it gained a pair";
            sim::check(u.launched, "missed-launch", "sensor %d: update %zu was %s but launched no computation", s->idx, k, why);
        } else if (!possible) {
            sim::check(!u.launched, "needless-launch", "sensor %d: update %zu stayed below every threshold but launched a computation", s->idx, k);
            sim::probe("small motion ignored");
        }
        if (u.launched) { pending = unsure = false; rp = u.pos; ro = u.orient; have_ref = true; }
    }
}
// publications of one sensor against its launches
void check_pubs(Sen* s) {
    std::vector<const Upd*> launches;
    for (auto& u : s->upds) if (u.launched) {
        if (!launches.empty()) sim::check(u.id > launches.back()->id, "launch-order", "sensor %d: task ids do not increase", s->idx);
        launches.push_back(&u);
    }
    size_t next = 0;
    for (auto& p : s->pubs) {
        size_t k = next;
        while (k < launches.size() && !same_pos(launches[k]->pos, p.rays->source_position())) ++k;
        sim::check(k < launches.size(), "stale-publication", "sensor %d published results for alt %.3f, which no accepted update (in order, once) asked for", s->idx, p.rays->source_position().altitude());
        if (k + 1 < launches.size() && p.seq > launches[k + 1]->inv) sim::probe("publication overlaps the next update");
        sim::check(p.seq > launches[k]->inv, "early-publication", "sensor %d published before the update", s->idx);
        sim::check(p.rays->sourceID() == s->key, "source-id", "results of sensor %d carry source %lu", s->idx, (unsigned long)p.rays->sourceID());
        bool used = false;
        for (size_t j = 0; j < w->freq.size(); ++j) {
            uint64_t end = j + 1 < w->freq.size() ? w->freq[j + 1].resp : ~0ull;
            used = used || (w->freq[j].inv <= launches[k]->resp && end >= launches[k]->inv && w->freq[j].f == p.rays->frequencies());
        }
        sim::check(used, "stale-frequencies", "sensor %d: an update was computed for frequencies that were not in effect", s->idx);
        // targets: every acoustic target in range that was registered throughout, where it was at some moment during the update
        std::set<uint64_t> seen;
        for (size_t i = 0; i < p.rays->size1(); ++i) {
            uint64_t id = p.rays->targetID(i, 0);
            sim::check(seen.insert(id).second, "target-twice", "sensor %d: target %lu is listed twice", s->idx, (unsigned long)id);
            wposition1 at = p.rays->position(i, 0);
            auto near_enough = [&](const wposition1& q) { return std::fabs(at.rho() - q.rho()) < 1e-6 && std::fabs(at.theta() - q.theta()) < 1e-12 && std::fabs(at.phi() - q.phi()) < 1e-12; };
            Sen* t = nullptr; for (auto* x : w->sen) if (x->key == id) t = x;
            if (t) {
                bool ok = false;
                for (size_t m = 0; m < t->motion.size() && !ok; ++m) {
                    uint64_t end = m + 1 < t->motion.size() ? t->motion[m + 1].resp : ~0ull;
                    ok = t->motion[m].inv <= launches[k]->resp && end >= launches[k]->inv && near_enough(t->motion[m].pos);
                }
                sim::check(ok, "target-position", "sensor %d: target sensor %d was never at the position that was used", s->idx, t->idx);
                sim::check(t->add_inv < launches[k]->resp, "target-early", "sensor %d: target sensor %d was not registered", s->idx, t->idx);
            } else {
                platform_model::sptr q; for (auto& x : w->plain) if (x->keyID() == id) q = x;
                if (w->host && w->host->keyID() == id) continue;
                sim::check(q != nullptr, "unknown-target", "sensor %d: unknown target %lu", s->idx, (unsigned long)id);
                sim::check(near_enough(q->position()), "target-position", "sensor %d: target %lu is elsewhere", s->idx, (unsigned long)id);
                sim::check(id != 102 || !(s->caps & RANGE), "target-range", "sensor %d: a target beyond the maximum range was used", s->idx);
                sim::check(id != 103, "target-flag", "sensor %d: a platform that is no acoustic target was used", s->idx);
            }
        }
        for (auto* x : w->sen) if (x->add_resp && x->add_resp < launches[k]->inv) sim::check(seen.count(x->key), "target-missing", "sensor %d: target sensor %d is missing", s->idx, x->idx);
        for (auto& q : w->plain) if (q->keyID() == 101 || (q->keyID() == 102 && !(s->caps & RANGE))) sim::check(seen.count(q->keyID()), "target-missing", "sensor %d: target %lu is missing", s->idx, (unsigned long)q->keyID());
        next = k + 1;
    }
    if (!launches.empty()) sim::check(next == launches.size(), "missing-publication", "sensor %d: the last computation that was launched is never published", s->idx);
}
// direct path of a pair, derived from one publication
bool dir_matches(const eigenray_collection& d, const Pub& p, const Sen* self, const Sen* other) {
    if (d.size1() != 1 || d.size2() != 1 || d.sourceID() != self->key || d.targetID(0, 0) != other->key) return false;
    if (!same_pos(d.source_position(), p.rays->source_position())) return false;
    for (size_t i = 0; i < p.rays->size1(); ++i) if (p.rays->targetID(i, 0) == other->key) {
        auto a = d.position(0, 0), b = p.rays->position(i, 0);
        return std::fabs(a.rho() - b.rho()) < 1e-6 && std::fabs(a.theta() - b.theta()) < 1e-12 && std::fabs(a.phi() - b.phi()) < 1e-12;
    }
    return false;
}
bool rays_match(const eigenray_collection& d, const Pub& p, uint64_t target, bool swap) {
    eigenray_list l;
    for (size_t i = 0; i < p.rays->size1(); ++i) for (size_t j = 0; j < p.rays->size2(); ++j)
        if (p.rays->targetID(i, j) == target) { auto q = p.rays->eigenrays(i, j); l.insert(l.end(), q.begin(), q.end()); }
    return dig_rays(d.eigenrays(0, 0)) == dig_rays(l, swap);
}
void check_pair(Sen* S, Sen* R, int last_forced) {
    auto pair = sensor_manager::instance()->find(sensor_pair::generate_hash_key(S->key, R->key));
    sim::check(pair != nullptr, "pair-missing", "pair %d->%d does not exist", S->idx, R->idx);
    bool reverb = (S->caps & REVERB) && (R->caps & REVERB);
    sim::check(pair->compute_reverb() == reverb, "pair-reverb", "pair %d->%d: wrong reverberation setting", S->idx, R->idx);
    if (S->pubs.empty() || R->pubs.empty()) sim::violate("no-publication", "pair %d->%d: a sensor never published", S->idx, R->idx);
    const Pub &ps = S->pubs.back(), &pr = R->pubs.back();
    // direct paths
    auto d = pair->dirpaths();
    sim::check(d != nullptr, "dirpaths-missing", "pair %d->%d has no direct paths", S->idx, R->idx);
    bool from_s = dir_matches(*d, ps, S, R) && rays_match(*d, ps, R->key, false);
    bool from_r = S != R && dir_matches(*d, pr, R, S) && rays_match(*d, pr, S->key, true);
    sim::check(from_s || from_r, "dirpaths-stale", "pair %d->%d: the direct paths are not those of the last update of its source or receiver", S->idx, R->idx);
    if (last_forced == S->idx && S != R) { sim::probe("direct path source known"); sim::check(from_s, "dirpaths-stale", "pair %d->%d: the direct paths are not those of the last update, which was of the source", S->idx, R->idx); }
    if (last_forced == R->idx && S != R) sim::check(from_r, "dirpaths-stale", "pair %d->%d: the direct paths are not those of the last update, which was of the receiver", S->idx, R->idx);
    if (d->eigenrays(0, 0).size()) sim::probe("direct paths with rays");
    double first = 0; for (auto& r : d->eigenrays(0, 0)) if (first == 0 || r->travel_time < first) first = r->travel_time;
    sim::check(d->initial_time(0, 0) == first, "dirpaths-initial", "pair %d->%d: wrong initial time", S->idx, R->idx);
    // a fresh sum gives the same totals
    {
        matrix<uint64_t> id(1, 1); id(0, 0) = d->targetID(0, 0);
        eigenray_collection again(d->frequencies(), d->source_position(), wposition(d->position(0, 0)), d->sourceID(), id, d->coherent());
        for (auto& r : d->eigenrays(0, 0)) again.add_eigenray(0, 0, r);
        again.sum_eigenrays();
        Digest a, b; a.vec(again.total(0, 0).intensity); a.d(again.total(0, 0).travel_time); b.vec(d->total(0, 0).intensity); b.d(d->total(0, 0).travel_time);
        sim::check(a.h == b.h, "dirpaths-total", "pair %d->%d: the totals are not those of the paths", S->idx, R->idx);
    }
    auto sv = pair->src_eigenverbs(), rv = pair->rcv_eigenverbs();
    auto bi = pair->biverbs();
    auto ts = pair->rvbts();
    if (!reverb) {
        sim::check(!sv && !rv && !bi && !ts, "reverb-unwanted", "pair %d->%d computed reverberation, which is off", S->idx, R->idx);
    } else {
        sim::check(sv && rv, "eigenverbs-missing", "pair %d->%d has no eigenverbs", S->idx, R->idx);
        sim::check(dig(*sv) == ps.dv, "eigenverbs-stale", "pair %d->%d: the source eigenverbs are not those of the last update of the source", S->idx, R->idx);
        sim::check(dig(*rv) == pr.dv, "eigenverbs-stale", "pair %d->%d: the receiver eigenverbs are not those of the last update of the receiver", S->idx, R->idx);
        sim::check(bi != nullptr, "biverbs-missing", "pair %d->%d has no bistatic eigenverbs", S->idx, R->idx);
        auto want = recompute_biverbs(w->ocean, *sv, *rv);
        if (num_biverbs(*want)) sim::probe("bistatic eigenverbs not empty");
        sim::check(dig(*bi) == dig(*want), "biverbs-stale", "pair %d->%d: the bistatic eigenverbs (%zu) are not those of its eigenverbs (%zu)", S->idx, R->idx, num_biverbs(*bi), num_biverbs(*want));
        if (S->sched_inv.empty()) sim::check(ts == nullptr, "rvbts-unwanted", "pair %d->%d: reverberation time series without a transmit schedule", S->idx, R->idx);
        else {
            sim::check(ts != nullptr, "rvbts-missing", "pair %d->%d has no reverberation time series", S->idx, R->idx);
            sim::check(ts->source() == S->obj && ts->receiver() == R->obj, "rvbts-sensors", "pair %d->%d: time series of other sensors", S->idx, R->idx);
            sim::check(ts->time_series().size1() == R->obj->rcv_num_keys(), "rvbts-channels", "pair %d->%d: %zu channels", S->idx, R->idx, size_t(ts->time_series().size1()));
            if (!(R->caps & LINE) && ts->time_series().size1() == 2)
                for (size_t t = 0; t < ts->time_series().size2(); ++t) {
                    double a = ts->time_series()(0, t), b = ts->time_series()(1, t);
                    sim::check(std::fabs(a - b) <= 1e-9 * std::fabs(a) || (a != a && b != b), "rvbts-channels", "pair %d->%d: two omnidirectional channels of a receiver hear %g and %g", S->idx, R->idx, a, b);
                }
            // the schedules it may have used: from the last one that called for an update
            size_t lo = 0;
            for (size_t i = 0; i < S->sched_resp.size(); ++i) if (S->sched_resp[i].second) lo = i;
            if (last_forced == S->idx || last_forced == R->idx) lo = S->sched_inv.size() - 1;
            uint64_t since = std::max(ps.seq, pr.seq);
            auto was_at = [&](Sen* x, const wposition1& p, const orientation& o, double speed) {
                for (size_t m = 0; m < x->motion.size(); ++m) {
                    uint64_t end = m + 1 < x->motion.size() ? x->motion[m + 1].resp : ~0ull;
                    if (end >= since && same_pos(x->motion[m].pos, p) && same_orient(x->motion[m].orient, o) && x->motion[m].speed == speed) return true;
                }
                return false;
            };
            sim::check(was_at(S, ts->source_pos(), ts->source_orient(), ts->source_speed()), "rvbts-motion", "pair %d->%d: the time series uses a motion of the source that is not one of its states since the last update", S->idx, R->idx);
            sim::check(was_at(R, ts->receiver_pos(), ts->receiver_orient(), ts->receiver_speed()), "rvbts-motion", "pair %d->%d: the time series uses a motion of the receiver that is not one of its states since the last update", S->idx, R->idx);
            bool ok = false;
            for (size_t i = lo; i < S->sched_inv.size() && !ok; ++i) {
                const transmit_list& l = w->schedules[size_t(S->sched_inv[i].second)];
                if (!S->hosted) ok = close_series(*ts, *recompute_rvbts(*ts, *bi, l, nullptr));
                else for (size_t m = 0; m < w->host_motion.size() && !ok; ++m) ok = close_series(*ts, *recompute_rvbts(*ts, *bi, l, &w->host_motion[m].orient));
            }
            if (S->sched_inv.size() - lo == 1) sim::probe("transmit schedule known");
            sim::check(ok, "rvbts-stale", "pair %d->%d: the reverberation time series is not that of its bistatic eigenverbs and the last transmit schedule", S->idx, R->idx);
        }
    }
    // listeners saw exactly this
    const void* f[5] = {d.get(), sv.get(), rv.get(), bi.get(), ts.get()};
    bool heard = false;
    for (auto& s : w->pairs.snaps[pair.get()]) heard = heard || !memcmp(s.f, f, sizeof f);
    sim::check(heard, "not-notified", "pair %d->%d: no listener was notified once the final results were in place", S->idx, R->idx);
    if (w->bits) { keep(d); keep(sv); keep(rv); keep(bi); keep(ts); }
}

// every time series that was published while the work went on: one motion state
// of both sensors, and the sum over some bistatic eigenverbs and one schedule
void check_series(Sen* S, Sen* R) {
    for (auto& t : w->pairs.series[sensor_pair::generate_hash_key(S->key, R->key)]) {
        const rvbts_collection& ts = *t.ts;
        auto was = [&](Sen* x, const wposition1& p, const orientation& o, double speed) {
            for (auto& m : x->motion) if (m.inv <= t.seq && same_pos(m.pos, p) && same_orient(m.orient, o) && m.speed == speed) return true;
            return false;
        };
        sim::probe("published time series");
        sim::check(was(S, ts.source_pos(), ts.source_orient(), ts.source_speed()), "rvbts-torn", "pair %d->%d: a published time series uses a motion that the source never had", S->idx, R->idx);
        sim::check(was(R, ts.receiver_pos(), ts.receiver_orient(), ts.receiver_speed()), "rvbts-torn", "pair %d->%d: a published time series uses a motion that the receiver never had", S->idx, R->idx);
        if (!w->bits) continue;
        bool ok = false;
        for (auto bi = t.bi.rbegin(); bi != t.bi.rend() && !ok; ++bi)
            for (size_t i = 0; i < S->sched_inv.size() && !ok; ++i) {
                if (S->sched_inv[i].first > t.seq) continue;
                const transmit_list& l = w->schedules[size_t(S->sched_inv[i].second)];
                if (!S->hosted) ok = close_series(ts, *recompute_rvbts(ts, **bi, l, nullptr));
                else for (size_t m = 0; m < w->host_motion.size() && !ok; ++m) ok = close_series(ts, *recompute_rvbts(ts, **bi, l, &w->host_motion[m].orient));
            }
        sim::check(ok, "rvbts-differ", "pair %d->%d: a published time series is not what a sequential computation gives for any of its inputs", S->idx, R->idx);
    }
}

void run(const sim::Plan& p) {
    sim::set_horizon(4000000, 0);
    sim::set_density(1.0 / double(1 << p.cfg("density", 4)));
    { sim::NoPreempt n; w = new World; w->bits = p.cfg("bits"); }
    thread_controller::reset(unsigned(std::max<int64_t>(1, p.cfg("threads", 2))));
    w->ocean = make_ocean();
    ocean_shared::update(w->ocean);
    auto* smgr = sensor_manager::instance();
    auto set_freq = [&](int k) {
        { sim::NoPreempt n; w->freq.push_back({sim::seq(), ~0ull, k < 0 ? nullptr : freqs(k)}); sim::trace("frequencies %d", k); }
        smgr->frequencies(w->freq.back().f);
        sim::NoPreempt n; w->freq.back().resp = sim::seq();
    };
    set_freq(int(p.cfg("freqs")));
    for (int k = 0; k < 6; ++k) w->schedules.push_back(make_schedule(k));
    const double lon = p.cfg("line", 0) ? 179.998 : 16.0;
    Fan fan; if (p.cfg("cheap", 0)) { fan.de.reset(new seq_linear(-30.0, 30.0, 30.0)); fan.az.reset(new seq_linear(0.0, 180.0, 360.0)); }
    fan.tmax = 0.1 * double(p.cfg("tmax", 3));
    for (auto& o : p.ops) if (o.thr == -1 && o.is("sensor")) {
        Sen* s = new Sen;
        s->idx = int(w->sen.size()); s->key = (p.cfg("big", 0) ? uint64_t(s->idx + 1) << 32 : 0) + uint64_t(p.cfg("big", 0) == 2 ? 1 : s->idx + 1); s->caps = int(o.a[1]); s->group = uint64_t(o.a[2]); s->hosted = o.a[3] != 0;
        wposition1 pos(36.0 + 0.0005 * s->idx, lon + 0.0008 * s->idx, -80.0 - 15.0 * s->idx);
        s->obj = std::make_shared<sensor_model>(s->key, "s", 0, pos, orientation(double(p.cfg("yaw", 0)), 0.0, 0.0));
        bp_model::csptr beam = (s->caps & LINE) ? bp_model::csptr(new bp_line(4, 0.75, HLA)) : bp_model::csptr(new bp_omni());
        if (s->caps & SRC) s->obj->src_beam(0, beam);
        if (s->caps & RCV) { s->obj->rcv_beam(3, beam, bvector(0.6, 0.8, 0.0)); s->obj->rcv_beam(1, bp_model::csptr(new bp_omni())); }
        s->obj->compute_reverb((s->caps & REVERB) != 0);
        s->obj->multistatic(s->group);
        if (s->caps & RANGE) s->obj->max_range(3000.0);
        s->obj->de_fan(fan.de); s->obj->az_fan(fan.az); s->obj->time_step(fan.step); s->obj->time_maximum(fan.tmax + 0.1 * double(p.cfg("times", 0) * s->idx)); s->obj->time_minimum(0.05 * double(p.cfg("times", 0) * s->idx));
        for (auto& l : p.ops) if (l.thr == -1 && l.is("limits")) { s->obj->max_bottom(int(l.a[0])); s->obj->max_surface(int(l.a[1])); s->obj->intensity_threshold(double(l.a[2])); }
        s->motion.push_back({0, 0, s->obj->position(), s->obj->orient(), 0.0});
        s->heard.s = s;
        s->obj->add_wavefront_listener(&s->heard);
        w->sen.push_back(s);
    }
    auto* pm = platform_manager::instance();
    if (p.cfg("plain") & 1) { w->plain.push_back(std::make_shared<platform_model>(101, "near", 0, wposition1(36.001, lon, -50.0))); pm->add(w->plain.back()); }
    if (p.cfg("plain") & 2) {
        w->plain.push_back(std::make_shared<platform_model>(102, "far", 0, wposition1(36.1, lon, -50.0))); pm->add(w->plain.back());
        auto no = std::make_shared<platform_model>(103, "no target", 0, wposition1(36.002, lon, -50.0)); no->is_acoustic_target(false); w->plain.push_back(no); pm->add(no);
    }
    for (auto* s : w->sen) if (s->hosted) {
        if (!w->host) {
            w->host = std::make_shared<platform_model>(100, "host", 0, wposition1(36.0, lon, -90.0), orientation(double(p.cfg("yaw", 0)), 0.0, 0.0));
            w->host->is_acoustic_target(false);
            w->host_motion.push_back({0, 0, w->host->position(), w->host->orient(), 0.0});
            pm->add(w->host);
        }
        w->host->add_child(s->obj, bvector(50.0 * (1 + s->idx), 20.0, 5.0 * s->idx), orientation(10.0 * s->idx, 0.0, 0.0));
        s->motion.back() = {0, 0, s->obj->position(), s->obj->orient(), s->obj->speed()};
        do_add(s->idx);
    }
    auto perform = [&](int, const sim::Op& o) {
        size_t ns = w->sen.size();
        if (o.is("add")) { if (size_t(o.a[0]) < ns && !w->sen[size_t(o.a[0])]->add_inv) do_add(int(o.a[0])); }
        else if (o.is("move")) { if (size_t(o.a[0]) < ns && (w->sen[size_t(o.a[0])]->add_resp)) do_move(int(o.a[0]), int(o.a[1]), int(o.a[2])); }
        else if (o.is("step") || o.is("back")) {
            if (size_t(o.a[0]) >= ns || !w->sen[size_t(o.a[0])]->add_resp) return;
            wposition1 pos; orientation ori;
            next_step(int(o.a[0]), o.is("back") ? -1 : int(o.a[1]), int(o.a[2]), int(o.a[3]), &pos, &ori);
            do_motion(int(o.a[0]), o.is("back") || !o.a[4] ? M_SMALL : o.a[4] == 1 ? M_FORCE : M_NO, pos, ori);
        }
        else if (o.is("freq")) {
            int k = int(o.a[0]);
            if (k < 0) for (auto* s : w->sen) if (!s->add_resp) return;          // sensors cannot be added without frequencies
            set_freq(k);
        }
        else if (o.is("sleep")) sim_sleep_ms(int(o.a[0]));
        else if (o.is("sched")) {
            if (size_t(o.a[0]) >= ns) return;
            Sen* s = w->sen[size_t(o.a[0])];
            if (!(s->caps & SRC)) return;
            int k = int(o.a[1]) % int(w->schedules.size());
            { sim::NoPreempt n; s->sched_inv.push_back({sim::seq(), k}); sim::trace("schedule %d of sensor %d", k, s->idx); }
            bool first = s->sched_inv.size() == 1;
            s->obj->transmit_schedule(w->schedules[size_t(k)], o.a[2] ? platform_model::FORCE_UPDATE : platform_model::NO_UPDATE);
            sim::NoPreempt n; s->sched_resp.push_back({sim::seq(), first || o.a[2] != 0});
        } else if (o.is("read")) {
            for (auto& q : smgr->list()) { keep(q->dirpaths()); keep(q->src_eigenverbs()); keep(q->rcv_eigenverbs()); keep(q->biverbs()); keep(q->rvbts()); }
        } else if (o.is("busy")) for (int i = 0; i < int(o.a[0]); ++i) thread_controller::instance()->run(std::make_shared<Task>(int(o.a[1])));
    };
    run_clients(p, perform);
    if (p.cfg("settle")) settle();
    if (!w->freq.back().f) set_freq(0);
    // a last update of everything
    int mode = 0; uint64_t fseed = 0;
    for (auto& o : p.ops) if (o.thr == -1 && o.is("final")) { mode = int(o.a[0]); fseed = uint64_t(o.a[1]); }
    sim::Rng fr(fseed);
    std::vector<int> order; for (auto* s : w->sen) if (s->add_resp && !(s->hosted && s->idx)) order.push_back(s->idx);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[fr.below(uint32_t(i))]);
    int last = -1;
    if (mode < 2) {
        for (int i : order) {
            settle();
            do_move(i, mode ? M_FORCE : M_SMALL, 0);
            settle();
        }
        if (mode == 1 && !order.empty()) last = order.back();
        if (last >= 0 && w->sen[size_t(last)]->hosted) last = -1;
    } else {
        for (int i : order) sim::spawn([i] { do_move(i, M_SMALL, 0); });
        sim::join_all();
        settle();
    }
    sim::NoPreempt np;
    for (auto* s : w->sen) { check_launches(s); check_pubs(s); }
    for (auto* a : w->sen) for (auto* b : w->sen) if (a->add_resp && b->add_resp && paired(a, b)) { check_pair(a, b, last); check_series(a, b); }
    check_kept();
    if (w->bits) for (auto* s : w->sen) for (auto& q : s->pubs) {
        Wave v = recompute_wave(w->ocean, *s->obj, *q.rays, (s->caps & REVERB) != 0);
        if (num_verbs(*v.verbs)) sim::probe("eigenverbs not empty");
        sim::check(dig(*v.rays) == q.dr, "eigenrays-differ", "sensor %d: the eigenrays differ from those of a sequential computation with the same inputs", s->idx);
        sim::check(dig(*v.verbs) == q.dv, "eigenverbs-differ", "sensor %d: the eigenverbs differ from those of a sequential computation with the same inputs", s->idx);
    }
    for (auto* s : w->sen) s->obj->remove_wavefront_listener(&s->heard);
    for (auto* s : w->sen) if (s->add_resp) smgr->remove_sensor(s->obj, &w->pairs);
    sensor_manager::reset();
    ocean_shared::reset();
}
sim::Registrar r1({"pipeline-settle", gen12, run, "a sensor published results"});
sim::Registrar r3({"motion-thresholds", gen12m, run, "a sensor published results"});
sim::Registrar r2({"pipeline-bits", gen13, run, "a sensor published results"});
}  // namespace
