// C25: beams, steerings and transmit schedules of one sensor, set, reset and read by several threads.
#include "pipeline.h"
using namespace pl;
namespace {
enum Kind { SRC_SET, SRC_GET, SRC_KEYS, SRC_NUM, SRC_IS, SRC_RESET, RCV_SET, RCV_GET, RCV_KEYS, RCV_NUM, RCV_IS, RCV_RESET, STEER_SET, STEER_GET, SCHED_SET, SCHED_GET, FREQ_SET, FREQ_GET, KINDS };
const char* names[] = {"src_beam=", "src_beam", "src_keys", "src_num_keys", "is_source", "reset_src_beams", "rcv_beam=", "rcv_beam", "rcv_keys", "rcv_num_keys", "is_receiver", "reset_rcv_beams",
                       "rcv_steering=", "rcv_steering", "transmit_schedule=", "transmit_schedule", "frequencies=", "frequencies"};
int group(int k) { return k <= SRC_RESET ? 0 : k <= STEER_GET ? 1 : k <= SCHED_GET ? 2 : 3; }
struct Call { int kind, key, id; int64_t got = 0; uint64_t inv = 0, resp = ~0ull; };
struct State {
    std::map<int, int> beam, steer; int one = 0;
    bool operator<(const State& o) const { return std::tie(beam, steer, one) < std::tie(o.beam, o.steer, o.one); }
};
struct Beam : bp_omni { int id; explicit Beam(int k) : id(k) {} };
struct World {
    sensor_model::sptr s;
    
    std::vector<Call*> calls;
} *w;
int64_t keys_of(const std::list<int>& l) { int64_t m = 0; int last = -1; bool ok = true; for (int k : l) { ok &= k > last && k < 16; last = k; m |= int64_t(1) << (k & 15); } return ok ? m : -2; }
// applies a call; false when its result does not fit the state
bool apply(State& st, const Call& c) {
    int64_t mask = 0; for (auto& x : st.beam) mask |= int64_t(1) << x.first;
    auto find = [&](std::map<int, int>& m) { auto i = m.find(c.key); return i == m.end() ? int64_t(-1) : int64_t(i->second); };
    switch (c.kind) {
        case SRC_SET: st.beam[c.key] = c.id; return c.got == int64_t(st.beam.size());
        case RCV_SET: st.beam[c.key] = c.id; st.steer[c.key] = c.id; return c.got == int64_t(st.beam.size());
        case SRC_GET: case RCV_GET: return c.got == find(st.beam);
        case SRC_KEYS: case RCV_KEYS: return c.got == mask;
        case SRC_NUM: case RCV_NUM: return c.got == int64_t(st.beam.size());
        case SRC_IS: case RCV_IS: return c.got == int64_t(!st.beam.empty());
        case SRC_RESET: case RCV_RESET: st.beam.clear(); return true;
        case STEER_SET: st.steer[c.key] = c.id; return true;
        case STEER_GET: return st.beam.count(c.key) == 0 ? c.got == -1 || c.got == find(st.steer) : c.got == find(st.steer);
        case SCHED_SET: case FREQ_SET: st.one = c.id; return true;
        default: return c.got == st.one;
    }
}
struct Lin {
    std::vector<Call*> ops; std::set<std::pair<uint64_t, State>> seen; size_t steps = 0;
    bool dfs(uint64_t done, const State& st) {
        if (done == (uint64_t(1) << ops.size()) - 1) return true;
        if (++steps > 400000) return true;                // undecided
        if (!seen.insert({done, st}).second) return false;
        uint64_t first = ~0ull;
        for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) first = std::min(first, ops[i]->resp);
        for (size_t i = 0; i < ops.size(); ++i) {
            if ((done >> i & 1) || ops[i]->inv > first) continue;
            State n = st;
            if (apply(n, *ops[i]) && dfs(done | uint64_t(1) << i, n)) return true;
        }
        return false;
    }
};
// nothing but the library keeps what is set; every value tells which call it belongs to
seq_vector::csptr axis(int id) { return seq_vector::csptr(new seq_linear(1000.0 + id, 1.0, size_t(1))); }
bp_model::csptr pattern(int id) { return bp_model::csptr(new Beam(id)); }
transmit_list schedule(int id) {
    transmit_list l;
    for (int i = 0; i <= id % 3; ++i) l.push_back(transmit_model::csptr(new transmit_cw("CW", 0.1 * id, 950.0, 0.0, 200.0 + i)));
    return l;
}
void gen(sim::Rng& r, sim::Plan& p) {
    p.add(-1, "density", {r.range(0, 6)});
    p.add(-1, "managed", {r.chance(0.5)});
    if (r.chance(0.3)) p.add(-1, "alloc", {r.range(0, 60), r.range(1, 3)});
    bool steer = r.chance(0.25);
    int threads = r.range(2, 4), keys = r.range(1, 3), g = r.chance(0.75) ? r.range(0, 3) : -1;
    for (int t = 0; t < threads; ++t) for (int k = r.range(1, 7); k > 0; --k) {
        int kind;
        if (steer && t) { static const int some[] = {RCV_SET, STEER_SET, STEER_SET, STEER_GET, STEER_GET}; kind = some[r.below(5)]; }
        else do kind = r.range(0, KINDS - 1); while ((g >= 0 && group(kind) != g) || ((kind == SRC_RESET || kind == RCV_RESET) && r.chance(0.5)));
        p.add(t, "call", {kind, r.below(uint32_t(keys)) * 3, r.range(0, 1)});
    }
}
void run(const sim::Plan& p) {
    sim::set_density(1.0 / double(1 << p.cfg("density", 4)));
    sim::set_horizon(4000000, 0);
    w = new World;
    {
        sim::NoPreempt n;
        w->s.reset(new sensor_model(1, "sensor"));
        w->s->time_maximum(1.0);
    }
    sensor_manager::instance()->frequencies(axis(0));
    if (p.cfg("managed", 0)) sensor_manager::instance()->add_sensor(w->s);
    for (auto& o : p.ops) if (o.thr == -1 && o.is("alloc")) sim::fault_alloc(o.a[0], int(o.a[1]));
    run_clients(p, [&](int, const sim::Op& o) {
        Call* c;
        bvector steer; bp_model::csptr give; transmit_list plan; seq_vector::csptr tones;
        {
            sim::NoPreempt n;
            c = new Call{int(o.a[0]) % KINDS, int(o.a[1]) % 16, int(w->calls.size()) + 1};
            w->calls.push_back(c);
            steer = bvector(double(c->id), 2.0 * c->id, 3.0 * c->id);
            if (c->kind == SRC_SET || c->kind == RCV_SET) give = pattern(c->id);
            if (c->kind == SCHED_SET) plan = schedule(c->id);
            if (c->kind == FREQ_SET) tones = axis(c->id);
        }
        sensor_model& s = *w->s;
        auto* m = sensor_manager::instance();
        auto beam_id = [](const bp_model::csptr& b) { auto* k = dynamic_cast<const Beam*>(b.get()); return b ? k ? int64_t(k->id) : int64_t(-2) : int64_t(-1); };
        for (int tries = 0; tries < 8; ++tries) try {
            std::list<int> keys; transmit_list sched; bvector b; bp_model::csptr beam; seq_vector::csptr f;
            { sim::NoPreempt n; c->inv = sim::seq(); c->resp = ~0ull; }
            {
                sim::AllocFaults on;
                switch (c->kind) {
                    case SRC_SET: c->got = int64_t(s.src_beam(c->key, give)); break;
                    case SRC_GET: beam = s.src_beam(c->key); break;
                    case SRC_KEYS: keys = s.src_keys(); break;
                    case SRC_NUM: c->got = int64_t(s.src_num_keys()); break;
                    case SRC_IS: c->got = s.is_source(); break;
                    case SRC_RESET: s.reset_src_beams(); break;
                    case RCV_SET: c->got = int64_t(s.rcv_beam(c->key, give, steer)); break;
                    case RCV_GET: beam = s.rcv_beam(c->key); break;
                    case RCV_KEYS: keys = s.rcv_keys(); break;
                    case RCV_NUM: c->got = int64_t(s.rcv_num_keys()); break;
                    case RCV_IS: c->got = s.is_receiver(); break;
                    case RCV_RESET: s.reset_rcv_beams(); break;
                    case STEER_SET: s.rcv_steering(c->key, steer); break;
                    case STEER_GET: b = s.rcv_steering(c->key); break;
                    case SCHED_SET: s.transmit_schedule(plan); break;
                    case SCHED_GET: sched = s.transmit_schedule(); break;
                    case FREQ_SET: m->frequencies(tones); break;
                    case FREQ_GET: f = m->frequencies(); break;
                    default: break;
                }
            }
            sim::NoPreempt n;
            c->resp = sim::seq();
            switch (c->kind) {
                case SRC_GET: case RCV_GET: c->got = beam_id(beam); sim::check(c->got != -2, "unknown-beam", "%s(%d) gave a beam pattern that was never set", names[c->kind], c->key); break;
                case SRC_KEYS: case RCV_KEYS: c->got = keys_of(keys); sim::check(c->got != -2, "keys", "%s are not distinct and ascending", names[c->kind]); break;
                case STEER_GET:
                    if (b.front() == 1.0 && b.right() == 0.0 && b.up() == 0.0) c->got = -1;
                    else { double k = b.front(); sim::check(b.right() == 2.0 * k && b.up() == 3.0 * k, "torn", "rcv_steering(%d) gave (%g,%g,%g), which mixes several steerings", c->key, k, b.right(), b.up()); c->got = int64_t(k); }
                    break;
                case SCHED_GET:
                    c->got = sched.empty() ? 0 : int64_t(std::lround(sched.front()->duration * 10.0));
                    { int n = 0; for (auto& t : sched) if (std::lround(t->duration * 10.0) != c->got || std::lround(t->source_level) != 200 + n++) c->got = -2; if (c->got > 0 && n != int(c->got % 3) + 1) c->got = -2; }
                    sim::check(c->got != -2, "unknown-schedule", "transmit_schedule gave a list of %zu pulses that was never set", sched.size());
                    break;
                case FREQ_GET:
                    c->got = f && f->size() == 1 ? int64_t((*f)[0]) - 1000 : -2;
                    sim::check(c->got != -2, "unknown-frequencies", "frequencies gave an axis that was never set");
                    break;
                default: break;
            }
            if (w->calls.size() > 1) sim::nontrivial();
            break;
        } catch (const std::bad_alloc&) {
            sim::NoPreempt n;
            sim::probe("a call ran out of memory");
            // a call that fails changes nothing
        }
    });
    sim::fault_alloc(-1, 0);
    sim::NoPreempt n;
    bool failed[4] = {};
    for (int g = 0; g < 4; ++g) {
        Lin lin;
        for (Call* c : w->calls) if (group(c->kind) == g && c->resp != ~0ull) lin.ops.push_back(c);
        if (lin.ops.size() > 40) continue;
        failed[g] = !lin.dfs(0, State());
        if (failed[g]) {
            std::sort(lin.ops.begin(), lin.ops.end(), [](Call* a, Call* b) { return a->inv < b->inv; });
            std::string s;
            for (Call* c : lin.ops) { char b[96]; snprintf(b, sizeof b, " %s(%d,#%d)->%lld[%llu,%llu]", names[c->kind], c->key, c->id, (long long)c->got, (unsigned long long)c->inv, (unsigned long long)c->resp); s += b; }
            sim::violate("settings", "no order of the calls explains what they gave:%s", s.c_str());
        }
    }
}
sim::Registrar r1({"sensor-settings", gen, run, "2-4 threads set, reset and read the beams, steerings and transmit schedules of one sensor and the frequencies of the manager; non-trivial when two calls were made"});
}  // namespace
