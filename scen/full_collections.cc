// C24: eigenverb and bistatic eigenverb collections that grow while they are listed, counted and searched.
#include "pipeline.h"
using namespace pl;
namespace {
struct Verb {
    int thr = 0, iface = 0; bool bi = false;
    eigenverb_model::csptr v, rcv;
    uint64_t digest = 0;           // of the bistatic eigenverb it makes
    bool kept = true;              // strong enough to be kept
    uint64_t begin = 0, end = ~0ull, seen = ~0ull;
};
struct World { std::map<int64_t, eigenverb_model::csptr> areas; eigenverb_collection* verbs; biverb_collection* bis; std::vector<Verb*> rec; double lat, lon; } *w;
typedef boost::numeric::ublas::vector<double> vec;

double unit(int64_t k) { return double(uint64_t(k) % 100003) / 100003.0; }
eigenverb_model::csptr make_verb(const wposition1& centre, sim::Rng& r, double spread, double size) {
    auto v = std::make_shared<eigenverb_model>();
    v->position = wposition1(centre, spread * r.unit(), 2.0 * M_PI * r.unit());
    v->frequencies = freqs(0);
    v->travel_time = r.chance(0.4) ? 1.0 + 0.5 * double(r.below(2)) : 1.0 + r.unit();
    v->power = vec(v->frequencies->size(), 1e-3 * (1.0 + r.unit()));
    v->length = size * (0.5 + r.unit()); v->width = size * (0.5 + r.unit());
    v->direction = 2.0 * M_PI * r.unit(); v->grazing = 0.3 * r.unit() + 0.1; v->sound_speed = 1500.0;
    v->de_index = r.below(20); v->az_index = r.below(20); v->source_de = -r.unit(); v->source_az = r.unit();
    v->surface = int(r.below(4)); v->bottom = int(r.below(4)); v->caustic = int(r.below(3)); v->upper = v->lower = 0;
    return v;
}
uint64_t digest(const biverb_model& v) {
    Digest e;
    e.d(v.travel_time); e.seq(*v.frequencies); e.vec(v.power); e.d(v.duration); e.u(v.de_index); e.u(v.az_index);
    e.d(v.source_de); e.d(v.source_az); e.d(v.receiver_de); e.d(v.receiver_az);
    for (int k : {v.source_surface, v.source_bottom, v.source_caustic, v.source_upper, v.source_lower, v.receiver_surface, v.receiver_bottom,
                  v.receiver_caustic, v.receiver_upper, v.receiver_lower}) e.u(uint64_t(k));
    return e.h;
}
// where `v` lies in the search area of `b`: below one inside, above one outside
double where(const eigenverb_model& b, const eigenverb_model& v) {
    double s = eigenverb_collection::search_scale, deg = M_PI / 180.0, R = b.position.rho();
    double north = (v.position.latitude() - b.position.latitude()) * deg * R;
    double east = std::remainder(v.position.longitude() - b.position.longitude(), 360.0) * deg * R * std::cos(0.5 * deg * (v.position.latitude() + b.position.latitude()));
    double along = north * std::cos(b.direction) + east * std::sin(b.direction), across = -north * std::sin(b.direction) + east * std::cos(b.direction);
    return std::fabs(along) / (s * b.length) + std::fabs(across) / (s * b.width);
}
void gen(sim::Rng& r, sim::Plan& p) {
    p.add(-1, "layers", {r.range(0, 1)});
    p.add(-1, "place", {r.chance(0.3) ? int64_t(r.below(8)) : r.range(8, 1 << 20), r.range(0, 3)});
    p.add(-1, "density", {r.range(0, 6)});
    if (r.chance(0.3)) p.add(-1, "alloc", {r.range(0, 60), r.range(1, 3)});
    int adders = r.chance(0.5) ? 1 : r.range(2, 3), readers = r.range(1, 3), faces = r.range(1, 4);
    bool bi = r.chance(0.5), mono = !bi || r.chance(0.4);
    int64_t areas[2] = {int64_t(r.next() >> 1), int64_t(r.next() >> 1)};
    double again = r.chance(0.5) ? 0.8 : 0.0;
    if (r.chance(0.2)) p.add(-1, "scale", {r.range(1, 4)});
    bool large = r.chance(0.02);
    for (int t = 0; t < adders; ++t) for (int k = large ? r.range(20, 300 / adders) : r.range(1, adders == 1 ? 20 : 7); k > 0; --k) p.add(t, bi && (!mono || r.chance(0.5)) ? "add-bi" : "add", {r.below(uint32_t(faces)), int64_t(r.next() >> 1)});
    for (int t = adders; t < adders + readers; ++t) for (int k = r.range(1, 8); k > 0; --k) {
        int what = r.range(0, 9);
        bool two = bi && (!mono || r.chance(0.5));
        if (!two && (what >= 6 || r.chance(again))) p.add(t, "find", {r.below(uint32_t(faces)), r.chance(again) ? areas[r.below(2)] : int64_t(r.next() >> 1)});
        else p.add(t, two ? (what < 7 ? "list-bi" : "count-bi") : what < 4 ? "list" : "count", {r.below(uint32_t(faces)), int64_t(r.next() >> 1)});
    }
}
// The search area lacks the side that joins its last corner to its first one, and its corners are
// handed over as (latitude, longitude): eigenverbs between the latitudes of those two corners, and
// areas that reach across 90 degrees of longitude, are searched wrongly (known findings).
bool tolerated(const eigenverb_model::csptr& b, Verb* v, bool found) {
    double s = eigenverb_collection::search_scale;
    wposition1 first(b->position, s * b->length, b->direction), last(b->position, s * b->width, b->direction + 1.5 * M_PI);
    double lo = std::min(first.latitude(), last.latitude()), hi = std::max(first.latitude(), last.latitude()), lat = v->v->position.latitude();
    double reach = 12.0 * s * (b->length + b->width) / (b->position.rho() * std::cos(b->position.latitude() * M_PI / 180.0)) * 180.0 / M_PI;
    bool side = lat >= lo - 1e-9 && lat <= hi + 1e-9, meridian = std::fabs(std::fabs(b->position.longitude()) - 90.0) < reach;
    if (!side && !meridian) return false;
    eigenverb_collection alone;                    // what the search gives when nothing else is going on
    alone.add_eigenverb(v->v, 0);
    if (alone.find_eigenverbs(b, 0).empty() == found) return false;
    if (side) sim::known("search-open-area", "%s", found ? "found outside" : "missed inside");
    else sim::known("search-meridian", "%s", found ? "found outside" : "missed inside");
    return true;
}
size_t most(int iface) { size_t n = 0; for (Verb* v : w->rec) n += !v->bi && v->iface == iface; return n; }
// a search of a collection that one thread fills gives what it gives after some number of the additions
void check_refinement(const std::set<Verb*>& got, int iface, uint64_t inv, uint64_t resp, const eigenverb_model::csptr& area) {
    std::vector<Verb*> order; int thr = -1;
    for (Verb* v : w->rec) if (!v->bi && v->iface == iface) { if (thr >= 0 && v->thr != thr) return; thr = v->thr; order.push_back(v); }
    eigenverb_collection alone;
    size_t from = 0, upto = 0;
    for (size_t k = 0; k < order.size(); ++k) { if (std::min(order[k]->end, order[k]->seen) <= inv) from = k + 1; if (order[k]->begin && order[k]->begin < resp) upto = k + 1; }
    for (size_t k = 0;; ++k) {
        if (k >= from) {
            std::set<Verb*> want;
            for (auto& v : alone.find_eigenverbs(area, 0)) for (Verb* r : order) if (r->v == v) want.insert(r);
            if (want == got) { sim::probe("search compared with a sequential one"); return; }
        }
        if (k >= upto) break;
        alone.add_eigenverb(order[k]->v, 0);
    }
    sim::violate("refinement", "a search of interface %d, which one thread fills, found %zu eigenverbs that no search after %zu to %zu of the additions gives", iface, got.size(), from, upto);
}
// what a listing may and must contain
void check_listing(const std::vector<Verb*>& got, int iface, bool bi, uint64_t inv, uint64_t resp, const eigenverb_model::csptr& area, const char* what) {
    std::set<Verb*> have;
    for (Verb* v : got) {
        sim::check(have.insert(v).second, "listed-twice", "%s of interface %d has one element twice", what, iface);
        sim::check(v->iface == iface && v->bi == bi, "wrong-interface", "%s of interface %d has an element that was added to interface %d", what, iface, v->iface);
        sim::check(v->begin && v->begin < resp, "unknown-element", "%s of interface %d has an element that was not added yet", what, iface);
        if (area && where(*area, *v->v) >= 1.03 && !tolerated(area, v, true)) sim::check(false, "outside", "a search of interface %d found an eigenverb outside of its area (%.2f)", iface, where(*area, *v->v));
    }
    if (area) check_refinement(have, iface, inv, resp, area);
    // a spatial index of several nodes skips some of them wrongly because of the open area
    bool all = !area || most(iface) <= 8;
    for (Verb* v : w->rec) {
        if (!all || v->iface != iface || v->bi != bi || !v->kept || have.count(v) || !v->begin) continue;
        if (area && where(*area, *v->v) > 0.97) continue;
        if (area && std::min(v->end, v->seen) <= inv && tolerated(area, v, false)) continue;
        sim::check(v->end > inv, "lost-element", "%s of interface %d lacks an element that was added before it", what, iface);
        sim::check(v->seen > inv, "lost-element", "%s of interface %d lacks an element that was listed before", what, iface);
    }
    for (Verb* v : got) v->seen = std::min(v->seen, resp);
}
std::vector<Verb*> known(const eigenverb_list& l, int iface) {
    std::vector<Verb*> out;
    for (auto& v : l) {
        Verb* f = nullptr;
        for (Verb* r : w->rec) if (!r->bi && r->v == v) f = r;
        sim::check(f != nullptr, "unknown-element", "interface %d lists an eigenverb that nobody added", iface);
        out.push_back(f);
    }
    return out;
}
std::vector<Verb*> known(const biverb_list& l, int iface) {
    std::vector<Verb*> out; double t = -1e30;
    for (auto& v : l) {
        uint64_t d = digest(*v); Verb* f = nullptr;
        for (Verb* r : w->rec) if (r->bi && r->iface == iface && r->digest == d) f = r;
        sim::check(f != nullptr, "unknown-element", "interface %d lists a bistatic eigenverb that differs from that of each pair added to it", iface);
        sim::check(v->travel_time >= t, "order", "bistatic eigenverbs of interface %d are not listed by travel time", iface);
        t = v->travel_time;
        out.push_back(f);
    }
    return out;
}
void read(const sim::Op& o) {
    int i = int(o.a[0]) % int(w->verbs->num_interfaces());
    uint64_t inv; { sim::NoPreempt n; inv = sim::seq(); }
    if (o.is("list")) {
        eigenverb_list l;
        { sim::AllocFaults f; l = w->verbs->eigenverbs(size_t(i)); }
        sim::NoPreempt n;
        check_listing(known(l, i), i, false, inv, sim::seq(), nullptr, "a listing");
    } else if (o.is("list-bi")) {
        biverb_list l;
        { sim::AllocFaults f; l = w->bis->biverbs(size_t(i)); }
        sim::NoPreempt n;
        check_listing(known(l, i), i, true, inv, sim::seq(), nullptr, "a bistatic listing");
    } else if (o.is("find")) {
        eigenverb_model::csptr b;
        { sim::NoPreempt n; sim::Rng r(uint64_t(o.a[1])); 
            eigenverb_model::csptr& a = w->areas[o.a[1]];            // the same area may be searched again and again
            if (!a) a = make_verb(wposition1(w->lat, w->lon, -100.0), r, 1500.0, 300.0 * double(1 + o.a[1] % 8));
            b = a; }
        eigenverb_list l;
        { sim::AllocFaults f; l = w->verbs->find_eigenverbs(b, size_t(i)); }
        sim::NoPreempt n;
        auto k = known(l, i);
        if (!k.empty()) sim::probe("search found eigenverbs");
        check_listing(k, i, false, inv, sim::seq(), b, "a search");
    } else {
        bool bi = o.is("count-bi");
        size_t got = bi ? w->bis->size(size_t(i)) : w->verbs->size(size_t(i)), least = 0, most = 0;
        sim::NoPreempt n;
        uint64_t resp = sim::seq();
        for (Verb* v : w->rec) if (v->iface == i && v->bi == bi && v->kept && v->begin) { least += std::min(v->end, v->seen) < inv; most += v->begin < resp; }
        sim::check(got >= least && got <= most, "count", "interface %d counts %zu elements, but between %zu and %zu were added", i, got, least, most);
    }
    sim::NoPreempt n; sim::nontrivial();
}
void run(const sim::Plan& p) {
    sim::set_density(1.0 / double(1 << p.cfg("density", 4)));
    sim::set_horizon(8000000, 0);
    w = new World;
    size_t layers = size_t(p.cfg("layers", 0));
    eigenverb_collection::search_scale = 0.75 * double(p.cfg("scale", 2));
    w->verbs = new eigenverb_collection(layers); w->bis = new biverb_collection(layers);
    const sim::Op* place = nullptr;
    for (auto& o : p.ops) if (o.is("place")) place = &o;
    static const double lons[] = {-180.0, 180.0, 179.995, -179.995, 90.0, -90.0, 0.0, 89.99}, lats[] = {45.0, 0.0, 80.0, -75.0};
    w->lat = place ? lats[place->a[1] % 4] : 0.0; w->lon = !place ? 0.0 : place->a[0] < 8 ? lons[place->a[0]] : 360.0 * unit(place->a[0] * 7919) - 180.0;
    {
        sim::NoPreempt n;
        wposition1 centre(w->lat, w->lon, -100.0);
        for (auto& o : p.ops) if (o.thr >= 0 && (o.is("add") || o.is("add-bi"))) {
            Verb* v = new Verb;
            sim::Rng r(uint64_t(o.a[1]));
            v->thr = o.thr; v->iface = int(o.a[0]) % int(w->verbs->num_interfaces()); v->bi = o.is("add-bi");
            v->v = make_verb(centre, r, 3000.0, 800.0);
            if (v->bi) {
                v->rcv = make_verb(v->v->position, r, r.chance(0.2) ? 30000.0 : 800.0, 800.0);
                biverb_collection alone(layers);
                alone.add_biverb(v->v, v->rcv, vec(v->v->frequencies->size(), 1e-3), size_t(v->iface));
                auto l = alone.biverbs(size_t(v->iface));
                v->kept = !l.empty();
                if (v->kept) v->digest = digest(*l.front());
            }
            w->rec.push_back(v);
        }
    }
    for (auto& o : p.ops) if (o.thr == -1 && o.is("alloc")) sim::fault_alloc(o.a[0], int(o.a[1]));
    std::map<int, size_t> at;
    run_clients(p, [&](int thr, const sim::Op& o) {
        if (!o.is("add") && !o.is("add-bi")) { 
            for (int k = 0; k < 8; ++k) try { read(o); break; } catch (const std::bad_alloc&) { sim::probe("a reader ran out of memory"); }
            return;
        }
        Verb* v;
        {
            sim::NoPreempt n;
            size_t& k = at[thr];
            while (w->rec[k]->thr != thr) ++k;
            v = w->rec[k++];
        }
        vec scatter;
        { sim::NoPreempt n; scatter = vec(v->v->frequencies->size(), 1e-3); v->begin = sim::seq(); }
        bool added = true;
        if (v->bi) {
            try { sim::AllocFaults f; w->bis->add_biverb(v->v, v->rcv, scatter, size_t(v->iface)); } catch (const std::bad_alloc&) { added = false; sim::probe("a bistatic eigenverb was not added"); }
        } else {
            w->verbs->add_eigenverb(v->v, size_t(v->iface));
        }
        sim::NoPreempt n;
        if (added) v->end = sim::seq(); else { v->kept = false; v->digest = 0; v->begin = 0; v->iface = -1; }   // an addition that fails changes nothing
    });
    sim::fault_alloc(-1, 0);
    for (size_t i = 0; i < w->verbs->num_interfaces(); ++i) {
        for (const char* c : {"list", "list-bi", "count", "count-bi"}) { sim::Op o; o.thr = 0; strncpy(o.name, c, sizeof o.name - 1); o.a[0] = int64_t(i); read(o); }
    }
    delete w->verbs; delete w->bis;
    w->areas.clear();
    for (Verb* v : w->rec) sim::check(v->v.use_count() == 1, "release", "a destroyed collection still refers to an eigenverb");
}
sim::Registrar r1({"growing-collections", gen, run, "1-3 threads extend a collection of eigenverbs and one of bistatic eigenverbs, 1-3 list, count and search them; non-trivial when something was read"});
}  // namespace
