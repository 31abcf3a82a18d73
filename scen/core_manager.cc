// The generic object manager: C06 (one atomic map) and C07 (its listeners).
#include "common.h"
#include <usml/managed/managed.h>
#include <algorithm>
#include <list>
#include <unordered_set>

using namespace usml::managed;
namespace {

struct ObjBase {                       // destroyed after the members of Obj
    int inst; bool* dead;
    ObjBase(int i, bool* d) : inst(i), dead(d) {}
    ~ObjBase() { sim::NoPreempt n; *dead = true; }
};
// a key that needs memory when it is copied, in half of the runs
size_t key_text = 0;
struct Key {
    std::string text; size_t n;
    Key(size_t k) : text(key_text, 'k'), n(k) {}
    operator size_t() const { return n; }
    bool operator<(const Key& o) const { return text < o.text || (text == o.text && n < o.n); }
};
class Obj : private ObjBase, public managed_obj<Key, Obj> {
   public:
    Obj(size_t key, int inst, bool* dead) : ObjBase(inst, dead), managed_obj<Key, Obj>(key, "obj"), key0(key) {}
    int instance() const { return inst; }
    const size_t key0;
};
using Manager = manager_template<Obj>;

// one call and what it returned
struct Call {
    int client = 0;
    char kind = 0;                     // a(dd) r(emove) f(ind) l(ist)
    size_t key = 0;
    int inst = 0;                      // add: object offered; find: object returned (0: none)
    bool ok = false, failed = false;   // failed: ended by an injected allocation failure
    std::vector<std::pair<size_t, int>> snap;
    uint64_t inv = 0, resp = 0;
};
struct Event { bool add; size_t key; int inst; uint64_t seq; int thread; };

struct W {
    Manager* man = nullptr;
    std::vector<Call*> calls;
    std::vector<Event> log;            // heard by the permanent listener
    bool dead[256] = {false};
    std::weak_ptr<Obj> weak[256];
    int next_inst = 1;
} *w;

struct Permanent : manager_listener<Obj> {
    void notify_add(const Obj* o) const override {
        sim::point("listener");
        size_t k = o->key0;            // the object must be usable here
        int i = o->instance();
        sim::NoPreempt n;
        w->log.push_back({true, k, i, sim::seq(), sim::tid()});
        sim::trace("event add %zu #%d", k, i);
    }
    void notify_remove(Key k) const override {
        sim::point("listener");
        sim::NoPreempt n;
        int inst = 0;
        for (auto& e : w->log) if (e.key == k) inst = e.add ? e.inst : 0;
        sim::check(inst != 0, "spurious-event", "removal of key %zu announced, which no addition preceded", k.n);
        sim::check(!w->dead[inst], "event-after-removal", "removal of key %zu announced after its object was destroyed", k.n);
        w->log.push_back({false, k, inst, sim::seq(), sim::tid()});
        sim::trace("event remove %zu #%d", k.n, inst);
    }
};
struct Transient : manager_listener<Obj> {
    mutable std::vector<Event> heard;
    uint64_t reg0 = 0, reg1 = 0, rem0 = 0, rem1 = ~0ull;
    void notify_add(const Obj* o) const override {
        sim::point("listener");
        size_t k = o->key0; int i = o->instance();
        sim::NoPreempt n;
        heard.push_back({true, k, i, sim::seq(), sim::tid()});
    }
    void notify_remove(Key k) const override {
        sim::point("listener");
        sim::NoPreempt n;
        heard.push_back({false, k, 0, sim::seq(), sim::tid()});
    }
};

// ---- linearizability: search for a legal order of the calls ------------
struct Lin {
    std::vector<Call*> c;
    bool by_events;                    // mutators must follow the event order
    std::map<size_t, int> state;
    std::unordered_set<std::string> seen;
    uint64_t done = 0;
    size_t ev = 0;
    size_t best = 0;
    bool dfs(size_t count) {
        if (count > best) best = count;
        if (count == c.size()) return !by_events || ev == w->log.size();
        std::string key((const char*)&done, sizeof done);
        for (auto& kv : state) { key += char(kv.first); key += char(kv.second); }
        if (!seen.insert(key).second) return false;
        uint64_t limit = ~0ull;
        for (size_t i = 0; i < c.size(); ++i) if (!(done >> i & 1) && c[i]->resp < limit) limit = c[i]->resp;
        for (size_t i = 0; i < c.size(); ++i) {
            if (done >> i & 1 || c[i]->inv > limit) continue;
            Call* x = c[i];
            auto it = state.find(x->key);
            std::map<size_t, int> saved = state;
            size_t ev0 = ev;
            bool legal = false;
            if (x->failed) legal = true;                           // changed nothing
            else if (x->kind == 'a') {
                legal = x->ok == (it == state.end());
                if (x->ok) {
                    legal = legal && match(true, x);
                    state[x->key] = x->inst;
                }
            } else if (x->kind == 'r') {
                legal = x->ok == (it != state.end());
                if (x->ok) { legal = legal && match(false, x); state.erase(x->key); }
            } else if (x->kind == 'f') legal = x->inst == (it == state.end() ? 0 : it->second);
            else {
                legal = x->snap.size() == state.size() && std::equal(x->snap.begin(), x->snap.end(), state.begin(),
                            [](const std::pair<size_t, int>& a, const std::pair<const size_t, int>& b) { return a.first == b.first && a.second == b.second; });
            }
            if (legal) {
                done |= 1ull << i;
                if (dfs(count + 1)) return true;
                done &= ~(1ull << i);
            }
            state = saved; ev = ev0;
        }
        return false;
    }
    bool match(bool add, Call* x) {
        if (!by_events) return true;
        if (ev >= w->log.size()) return false;
        const Event& e = w->log[ev];
        if (e.add != add || e.key != x->key) return false;
        if (add && e.inst != x->inst) return false;
        if (e.seq < x->inv || e.seq > x->resp) return false;
        ++ev;
        return true;
    }
};

void gen_map(sim::Rng& r, sim::Plan& p) {
    int clients = r.range(2, 4), keys = r.range(1, 3);
    p.add(-1, "listen", {r.range(0, 2)});
    if (r.chance(0.3)) p.add(-1, "alloc", {r.range(0, 25), r.range(1, 2)});
    if (r.chance(0.5)) p.add(-1, "text", {40});
    if (r.chance(0.04)) p.add(-1, "fill", {r.range(5, 300)});
    int left = 18;
    for (int c = 0; c < clients; ++c) {
        int n = r.range(1, 5);
        if (n > left) n = left;
        left -= n;
        for (int i = 0; i < n; ++i) {
            int k = r.range(0, 11);
            size_t key = size_t(r.range(1, keys));
            if (k < 4) p.add(c, "add", {int64_t(key)});
            else if (k < 7) p.add(c, "remove", {int64_t(key)});
            else if (k < 9) p.add(c, "find", {int64_t(key)});
            else p.add(c, "list", {});
        }
    }
}
void gen_listen(sim::Rng& r, sim::Plan& p) {
    int clients = r.range(2, 4), keys = r.range(1, 3);
    p.add(-1, "listen", {1});
    if (r.chance(0.2)) p.add(-1, "alloc", {r.range(0, 25), r.range(1, 2)});
    if (r.chance(0.5)) p.add(-1, "text", {40});
    int left = 16;
    for (int c = 0; c < clients; ++c) {
        int n = r.range(1, 6);
        for (int i = 0; i < n; ++i) {
            int k = r.range(0, 13);
            size_t key = size_t(r.range(1, keys));
            if (k >= 8) { p.add(c, k < 11 ? "hear" : "unhear", {}); continue; }
            if (--left < 0) continue;
            if (k < 4) p.add(c, "add", {int64_t(key)});
            else if (k < 7) p.add(c, "remove", {int64_t(key)});
            else p.add(c, "list", {});
        }
    }
}

void run_map(const sim::Plan& p, bool listeners) {
    sim::set_horizon(60000, 0);
    key_text = size_t(p.cfg("text", 0));
    w = new W;
    w->man = new Manager;
    auto* perm = new Permanent;
    bool listen = p.cfg("listen") != 0 || listeners;
    if (listen) w->man->add_listener(perm);
    for (auto& o : p.ops) if (o.thr == -1 && o.is("alloc")) sim::fault_alloc(o.a[0], int(o.a[1]));
    // a manager that holds much already
    static bool gone[512]; static std::weak_ptr<Obj> more[512];
    int fill = std::min(500, int(p.cfg("fill", 0)));
    auto filling = [&](int i) { return size_t(i % 2 ? 1000 + i : 100000 - i); };
    if (fill) {
        W* real = w; w = new W;                      // what the listeners hear of it does not count
        for (int i = 0; i < fill; ++i) {
            auto o = std::make_shared<Obj>(filling(i), 0, &gone[i]);
            more[i] = o;
            w->man = real->man;
            sim::check(w->man->add(o) == filling(i), "key", "adding key %zu returned another one", filling(i));
        }
        if (listen) sim::check(w->log.size() == size_t(fill), "listener-range", "%zu events for %d additions", w->log.size(), fill);
        w = real;
        sim::probe("filled manager");
    }
    static std::vector<std::shared_ptr<Obj>> held[8];
    static std::vector<std::pair<Transient*, bool>> trans[8];   // registered?
    run_clients(p, [&](int c, const sim::Op& o) {
        Call* x; std::shared_ptr<Obj> mine;
        {
            sim::NoPreempt n;
            x = new Call; x->client = c; x->key = size_t(o.a[0]); w->calls.push_back(x);
            if (o.is("add")) {
                int i = w->next_inst++;
                mine = std::make_shared<Obj>(x->key, i, &w->dead[i]);
                w->weak[i] = mine;
                x->inst = i;
            }
            x->kind = o.name[0];
        }
        if (o.is("hear")) {
            Transient* t; { sim::NoPreempt n; w->calls.pop_back(); t = new Transient; t->reg0 = sim::seq(); }
            w->man->add_listener(t);
            sim::NoPreempt n; t->reg1 = sim::seq(); t->rem0 = ~0ull; trans[c].push_back({t, true});
            return;
        }
        if (o.is("unhear")) {
            Transient* t = nullptr;
            { sim::NoPreempt n; w->calls.pop_back(); for (auto& q : trans[c]) if (q.second) { t = q.first; q.second = false; break; } if (t) t->rem0 = sim::seq(); }
            if (!t) return;
            w->man->remove_listener(t);
            sim::NoPreempt n; t->rem1 = sim::seq();
            return;
        }
        { sim::NoPreempt n; x->inv = sim::seq(); }
        try {
            if (x->kind == 'a') {
                sim::AllocFaults af;
                size_t k = 0; bool dup = false;
                try { k = w->man->add(mine); } catch (const Manager::duplicate_key&) { dup = true; }
                x->ok = !dup;
                sim::check(dup || k == x->key, "key", "adding key %zu returned key %zu", x->key, k);
                sim::probe(dup ? "duplicate" : "added");
            } else if (x->kind == 'r') {
                // listeners receive a copy of the key, nobody could take back what they were told
                std::unique_ptr<sim::AllocFaults> af(key_text && listen ? nullptr : new sim::AllocFaults);
                x->ok = w->man->remove(x->key);
            } else if (x->kind == 'f') {
                sim::AllocFaults af;
                auto got = w->man->find(x->key);
                sim::NoPreempt n;
                if (got) {
                    x->inst = got->instance();
                    sim::check(got->key0 == x->key, "wrong-object", "find(%zu) returned the object of key %zu", x->key, got->key0);
                    held[c].push_back(got);
                }
            } else {
                std::list<std::shared_ptr<Obj>> l;
                { sim::AllocFaults af; l = w->man->list(); }
                sim::NoPreempt n;
                size_t old = 0;
                for (auto i = l.begin(); i != l.end();) if ((*i)->key0 >= 1000) { ++old; i = l.erase(i); } else ++i;
                sim::check(old == size_t(fill), "list-order", "a list has %zu of %d objects that were there all the time", old, fill);
                for (auto& g : l) { x->snap.push_back({g->keyID(), g->instance()}); held[c].push_back(g); }
                for (size_t i = 1; i < x->snap.size(); ++i) sim::check(x->snap[i - 1].first < x->snap[i].first, "list-order", "list is not ordered by key");
            }
        } catch (const std::bad_alloc&) { x->failed = true; sim::probe("operation failed"); }
        { sim::NoPreempt n; x->resp = sim::seq();
          sim::trace("%c %zu -> %s #%d [%lu,%lu]", x->kind, x->key, x->failed ? "failed" : x->ok ? "ok" : "no", x->inst, (unsigned long)x->inv, (unsigned long)x->resp); }
        mine.reset();
        // everything held is still usable
        for (auto& h : held[c]) sim::check(h->keyID() == h->key0, "held-object", "an object held by its reader changed");
    });
    sim::fault_alloc(-1, 0);
    sim::NoPreempt n;
    if (w->calls.size() > 1) sim::nontrivial();
    for (auto& v : held) for (auto& h : v) sim::check(!w->dead[h->instance()], "held-object", "object #%d was destroyed while a reader held it", h->instance());
    Lin lin;
    lin.c = w->calls; lin.by_events = listen;
    if (!lin.dfs(0)) {
        std::string s;
        for (auto* x : w->calls) {
            char b[200];
            snprintf(b, sizeof b, " c%d:%c(%zu)", x->client, x->kind, x->key); s += b;
            if (x->failed) s += "=failed";
            else if (x->kind == 'l') { s += "=["; for (auto& q : x->snap) s += std::to_string(q.first) + "#" + std::to_string(q.second) + " "; s += "]"; }
            else if (x->kind == 'f') s += "=#" + std::to_string(x->inst);
            else { s += x->ok ? "=ok" : "=no"; if (x->kind == 'a') s += "#" + std::to_string(x->inst); }
            s += "[" + std::to_string(x->inv) + "," + std::to_string(x->resp) + "]";
        }
        if (listen) {
            Lin plain; plain.c = w->calls; plain.by_events = false;
            bool ok = plain.dfs(0);
            s += "; events:";
            for (auto& e : w->log) s += std::string(e.add ? " +" : " -") + std::to_string(e.key) + "#" + std::to_string(e.inst) + "@" + std::to_string(e.seq);
            if (ok) sim::violate("event-order", "no order of the calls agrees with the events announced:%s", s.c_str());
        }
        sim::violate("linearizability", "no order of the calls explains their results:%s", s.c_str());
    }
    // each transient listener heard exactly the changes made while it was registered
    for (auto& v : trans) for (auto& q : v) {
        Transient* t = q.first;
        // its events must be a contiguous part of the permanent listener's
        size_t nlog = w->log.size(), h = t->heard.size();
        auto same = [&](size_t at) {
            for (size_t i = 0; i < h; ++i) {
                const Event &a = t->heard[i], &b = w->log[at + i];
                if (a.add != b.add || a.key != b.key || a.thread != b.thread || (a.add && a.inst != b.inst)) return false;
            }
            return true;
        };
        // windows of every event: the call that made it
        std::vector<std::pair<uint64_t, uint64_t>> win;
        {
            for (auto& e : w->log) {
                std::pair<uint64_t, uint64_t> x{0, ~0ull};
                for (auto* c : w->calls) if ((c->kind == (e.add ? 'a' : 'r')) && c->ok && c->key == e.key && c->inv < e.seq && e.seq < c->resp && (!e.add || c->inst == e.inst)) { x = {c->inv, c->resp}; }
                win.push_back(x);
            }
        }
        bool found = false;
        for (size_t at = 0; at + h <= nlog && !found; ++at) {
            if (!same(at)) continue;
            bool ok = true;
            for (size_t i = 0; i < nlog; ++i) {
                bool in = i >= at && i < at + h;
                if (!in && win[i].first > t->reg1 && win[i].second < t->rem0) ok = false;          // must be heard
                if (in && (win[i].second < t->reg0 || win[i].first > t->rem1)) ok = false;          // must not
            }
            found = ok;
        }
        sim::check(found, "listener-range", "a listener registered in [%lu,%lu] and removed in [%lu,%lu] heard %zu changes, which are not the changes made in between",
                   (unsigned long)t->reg0, (unsigned long)t->reg1, (unsigned long)t->rem0, (unsigned long)t->rem1, h);
        sim::probe("transient listener checked");
    }
    for (auto& v : held) v.clear();
    for (int i = 0; i < fill; ++i) { auto o = w->man->find(filling(i)); sim::check(o && o->key0 == filling(i), "wrong-object", "the object of key %zu cannot be found", filling(i)); }
    delete w->man;
    for (int i = 0; i < fill; ++i) sim::check(gone[i] && more[i].expired(), "release", "an object is never destroyed");
    for (int i = 1; i < w->next_inst; ++i) sim::check(w->dead[i], "release", "object #%d is never destroyed", i);
}
void run_map06(const sim::Plan& p) { run_map(p, false); }
void run_map07(const sim::Plan& p) { run_map(p, true); }
sim::Registrar r1({"manager-map", gen_map, run_map06, "at least two calls on one manager"});
sim::Registrar r2({"manager-listen", gen_listen, run_map07, "at least two calls on one manager"});
}  // namespace
