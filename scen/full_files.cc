// Result files on a failing disk (C17) and collections read back (C18).
#include "files.h"
#include <usml/sensors/sensor_model.h>
#include <usml/types/gen_grid.h>
using namespace fl;

namespace {

enum Kind { RAYS, VERBS, BIVERBS, RVBTS, GRID1, GRID2, GRID3, KINDS };

struct Product {
    int kind = 0; size_t interface = 0;
    std::shared_ptr<eigenray_collection> rays;
    std::shared_ptr<eigenverb_collection> verbs;
    std::shared_ptr<biverb_collection> biverbs;
    std::shared_ptr<rvbts_collection> series;
    std::shared_ptr<gen_grid<1>> g1;
    std::shared_ptr<gen_grid<2>> g2;
    std::shared_ptr<gen_grid<3>> g3;
    bool named = false;

    void write(const std::string& f) const {
        switch (kind) {
            case RAYS: rays->write_netcdf(f.c_str(), named ? "a name" : nullptr); break;
            case VERBS: verbs->write_netcdf(f.c_str(), interface); break;
            case BIVERBS: biverbs->write_netcdf(f.c_str(), interface); break;
            case RVBTS: series->write_netcdf(f.c_str()); break;
            case GRID1: g1->write_netcdf(f.c_str()); break;
            case GRID2: g2->write_netcdf(f.c_str()); break;
            default: g3->write_netcdf(f.c_str());
        }
    }
    template <size_t N> static uint64_t dig_grid(const gen_grid<N>& g) {
        Digest d; size_t n = 1;
        for (size_t i = 0; i < N; ++i) { d.seq(g.axis(i)); n *= g.axis(i).size(); }
        for (size_t i = 0; i < n; ++i) d.d(g.data()[i]);
        return d.h;
    }
    uint64_t digest() const {
        switch (kind) {
            case RAYS: return dig(*rays);
            case VERBS: return dig(*verbs);
            case BIVERBS: return dig(*biverbs);
            case RVBTS: return dig(*series);
            case GRID1: return dig_grid(*g1);
            case GRID2: return dig_grid(*g2);
            default: return dig_grid(*g3);
        }
    }
};

sensor_model::sptr a_sensor(int key, sim::Rng& r, bool src, bool rcv) {
    sensor_model::sptr s(new sensor_model(platform_model::key_type(key), "s", 0.0, any_pos(r), orientation(10.0 * r.unit(), 0.0, 0.0), 3.0 * r.unit()));
    if (src) s->src_beam(0, bp_model::csptr(new bp_omni()));
    if (rcv) for (int i = 0, n = r.range(1, 3); i < n; ++i) s->rcv_beam(i, bp_model::csptr(new bp_omni()));
    return s;
}

Product make(int kind, int size, uint64_t seed) {
    sim::Rng r(seed);
    Product p; p.kind = kind; p.named = r.chance(0.5);
    int nf = r.chance(0.02) ? r.range(4, 40) : r.range(1, 3);
    if (kind == RAYS) {
        int lo = r.chance(0.1) ? 0 : 1;
        p.rays = any_rays(r, r.chance(0.02) ? r.range(3, 24) : r.range(lo, 1 + size), r.chance(0.02) ? r.range(3, 24) : r.range(lo, 1 + size), nf, size);
    } else if (kind == VERBS) {
        p.verbs = any_verbs(r, r.range(0, 3), nf, 1 + 2 * size);
        p.interface = r.below(uint32_t(p.verbs->num_interfaces()));
    } else if (kind == BIVERBS) {
        p.biverbs = any_biverbs(r, r.range(0, 3), nf, 1 + 2 * size);
        p.interface = r.below(uint32_t(p.biverbs->num_interfaces()));
    } else if (kind == RVBTS) {
        auto src = a_sensor(11, r, true, false), rcv = a_sensor(22, r, false, true);
        seq_vector::csptr times(new seq_linear(0.0, 0.1, size_t(r.chance(0.05) ? r.range(30, 2500) : 3 + 8 * size)));
        p.series = std::make_shared<rvbts_collection>(src, any_pos(r), orientation(360.0 * r.unit(), 20.0 * r.unit(), 10.0 * r.unit()), 5.0 * r.unit(), rcv, any_pos(r),
                                                      orientation(360.0 * r.unit(), 20.0 * r.unit(), 10.0 * r.unit()), 5.0 * r.unit(), times);
        auto bi = any_biverbs(r, 0, 1, 2);
        transmit_model::csptr t(new transmit_cw("CW", 0.3, 950.0, 0.0, 200.0, window::type::BOXCAR, 0.0, 0.0, 0.0, 0));
        for (size_t i = 0; i < bi->num_interfaces(); ++i)
            for (auto& b : bi->biverbs(i)) { std::const_pointer_cast<biverb_model>(b)->travel_time = 0.2 * size * r.unit(); std::const_pointer_cast<biverb_model>(b)->duration = 0.05; p.series->add_biverb(b, t, bvector(0.0, 0.0)); }
    } else {
        seq_vector::csptr ax[3];
        size_t n[3];
        for (int i = 0; i < 3; ++i) { n[i] = size_t(r.chance(0.02) ? r.range(5, 60) : r.range(1, 2 + size)); if (r.chance(0.5)) ax[i] = seq_vector::csptr(new seq_linear(r.unit(), 0.1 + r.unit(), n[i])); else { std::vector<double> v; double x = r.unit(); for (size_t k = 0; k < n[i]; ++k) v.push_back(x += 0.1 + r.unit()); ax[i] = seq_vector::csptr(new seq_data(v)); } }
        size_t idx[3];
        if (kind == GRID1) { p.g1 = std::make_shared<gen_grid<1>>(ax); for (idx[0] = 0; idx[0] < n[0]; ++idx[0]) p.g1->setdata(idx, 1e3 * r.unit()); }
        else if (kind == GRID2) { p.g2 = std::make_shared<gen_grid<2>>(ax); for (idx[0] = 0; idx[0] < n[0]; ++idx[0]) for (idx[1] = 0; idx[1] < n[1]; ++idx[1]) p.g2->setdata(idx, 1e3 * r.unit()); }
        else { p.g3 = std::make_shared<gen_grid<3>>(ax); for (idx[0] = 0; idx[0] < n[0]; ++idx[0]) for (idx[1] = 0; idx[1] < n[1]; ++idx[1]) for (idx[2] = 0; idx[2] < n[2]; ++idx[2]) p.g3->setdata(idx, 1e3 * r.unit()); }
    }
    return p;
}

// ---- what the file must hold --------------------------------------------
void scalar(const Nc& f, const char* n, double v) { want(f.get(n).at(0), v, n, 0); }
void dims(const Nc& f, const char* n, size_t v) { sim::check(f.dim(n) == int64_t(v), "wrong-shape", "dimension %s is %lld in the file, %zu in the object", n, (long long)f.dim(n), v); }

void verify_rays(const Nc& f, const eigenray_collection& c, bool named) {
    size_t n1 = c.size1(), n2 = c.size2(), nf = c.frequencies()->size(), records = n1 * n2;
    for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) records += c.eigenrays(i, j).size();
    dims(f, "rows", n1); dims(f, "cols", n2); dims(f, "frequencies", nf); dims(f, "eigenrays", records);
    if (named) sim::check(f.text("long_name") == "a name", "wrong-data", "the file's name is '%s'", f.text("long_name").c_str());
    scalar(f, "sourceID", double(c.sourceID())); scalar(f, "source_latitude", c.source_position().latitude());
    scalar(f, "source_longitude", c.source_position().longitude()); scalar(f, "source_altitude", c.source_position().altitude());
    auto fr = f.get("frequencies");
    for (size_t i = 0; i < nf; ++i) want(fr[i], (*c.frequencies())[i], "frequencies", i);
    if (records == 0) return;
    auto id = f.get("targetID"), lat = f.get("latitude"), lng = f.get("longitude"), alt = f.get("altitude"), t0 = f.get("initial_time");
    auto pi = f.get("proploss_index"), ei = f.get("eigenray_index"), en = f.get("eigenray_num");
    auto in = f.get("intensity"), ph = f.get("phase"), tt = f.get("travel_time"), sd = f.get("source_de"), sa = f.get("source_az"), td = f.get("target_de"), ta = f.get("target_az");
    auto su = f.get("surface"), bo = f.get("bottom"), ca = f.get("caustic"), up = f.get("upper"), lo = f.get("lower");
    for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) {
        size_t k = i * n2 + j;
        want(id[k], double(c.targetID(i, j)), "targetID", i, j); want(lat[k], c.position(i, j).latitude(), "latitude", i, j);
        want(lng[k], c.position(i, j).longitude(), "longitude", i, j); want(alt[k], c.position(i, j).altitude(), "altitude", i, j);
        want(t0[k], c.initial_time(i, j), "initial_time", i, j); want(en[k], double(c.eigenrays(i, j).size()), "eigenray_num", i, j);
        auto one = [&](size_t rec, const eigenray_model& e) {
            sim::check(rec < records, "wrong-data", "record %zu of %zu", rec, records);
            want(tt[rec], e.travel_time, "travel_time", rec); want(sd[rec], e.source_de, "source_de", rec); want(sa[rec], e.source_az, "source_az", rec);
            want(td[rec], e.target_de, "target_de", rec); want(ta[rec], e.target_az, "target_az", rec);
            want(su[rec], e.surface, "surface", rec); want(bo[rec], e.bottom, "bottom", rec); want(ca[rec], e.caustic, "caustic", rec);
            want(up[rec], e.upper, "upper", rec); want(lo[rec], e.lower, "lower", rec);
            for (size_t q = 0; q < nf; ++q) { want(in[rec * nf + q], e.intensity[q], "intensity", rec, q); want(ph[rec * nf + q], e.phase[q], "phase", rec, q); }
        };
        one(size_t(pi[k]), c.total(i, j));
        size_t rec = size_t(ei[k]);
        for (auto& e : c.eigenrays(i, j)) one(rec++, *e);
    }
}
// the interface that the file says it describes
void verify_name(const Nc& f, size_t i) {
    std::string name = f.text("long_name"), layer = i < 4 ? "" : std::to_string((i - 2) / 2 + 1) + " ";
    std::string what = i == 0 ? "bottom eigenverbs" : i == 1 ? "surface eigenverbs" : std::string(i % 2 ? "lower" : "upper") + " volume " + layer + "eigenverbs";
    sim::check(name == what, "wrong-data", "the file's name is '%s' for the %s", name.c_str(), what.c_str());
    int64_t n = f.number("layer", -1), w = i < 2 ? -1 : int64_t(i - 2) / 2 + 1;
    sim::check(n == w, "wrong-data", "the file of the %s says layer %lld", what.c_str(), (long long)n);
}
// maps the records of the file to objects by their travel times: every record
// is one of those that may be there, and all that must be there are
template <class L> std::vector<typename L::value_type> by_time(const std::vector<double>& tt, const L& must, const L& may) {
    std::vector<typename L::value_type> what, all(may.begin(), may.end());
    for (size_t k = 0; k < tt.size(); ++k) {
        size_t i = 0;
        while (i < all.size() && (!all[i] || !near(tt[k], all[i]->travel_time))) ++i;
        sim::check(i < all.size(), "wrong-data", "travel time %.17g in the file is not in the object", tt[k]);
        what.push_back(all[i]); all[i].reset();
    }
    for (auto& v : must) {
        bool found = false;
        for (auto& w : what) found |= w == v;
        sim::check(found, "wrong-data", "travel time %.17g is missing from the file", v->travel_time);
    }
    return what;
}
void verify_verbs(const Nc& f, const eigenverb_list& must, const eigenverb_list& list, size_t i) {
    verify_name(f, i);
    if (must.empty() && f.dim("eigenverbs") <= 0) return;
    if (list.empty()) { sim::check(f.dim("eigenverbs") <= 0, "wrong-shape", "an empty interface gave %lld records", (long long)f.dim("eigenverbs")); return; }
    size_t nf = (*list.begin())->frequencies->size();
    dims(f, "frequencies", nf);
    auto fr = f.get("frequencies");
    for (size_t q = 0; q < nf; ++q) want(fr[q], (*(*list.begin())->frequencies)[q], "frequencies", q);
    auto tt = f.get("travel_time"), pw = f.get("power"), le = f.get("length"), wi = f.get("width"), la = f.get("latitude"), ln = f.get("longitude"), al = f.get("altitude");
    auto di = f.get("direction"), gr = f.get("grazing"), ss = f.get("sound_speed"), dx = f.get("de_index"), ax = f.get("az_index"), sd = f.get("source_de"), sa = f.get("source_az");
    auto su = f.get("surface"), bo = f.get("bottom"), ca = f.get("caustic"), up = f.get("upper"), lo = f.get("lower");
    size_t k = 0;
    for (auto& v : by_time(tt, must, list)) {
        want(le[k], v->length, "length", k); want(wi[k], v->width, "width", k); want(la[k], v->position.latitude(), "latitude", k); want(ln[k], v->position.longitude(), "longitude", k);
        want(al[k], v->position.altitude(), "altitude", k); want(di[k], deg(v->direction), "direction", k); want(gr[k], deg(v->grazing), "grazing", k);
        want(ss[k], v->sound_speed, "sound_speed", k); want(dx[k], double(v->de_index), "de_index", k); want(ax[k], double(v->az_index), "az_index", k);
        want(sd[k], deg(v->source_de), "source_de", k); want(sa[k], deg(v->source_az), "source_az", k);
        want(su[k], v->surface, "surface", k); want(bo[k], v->bottom, "bottom", k); want(ca[k], v->caustic, "caustic", k); want(up[k], v->upper, "upper", k); want(lo[k], v->lower, "lower", k);
        for (size_t q = 0; q < nf; ++q) want(pw[k * nf + q], db(v->power[q]), "power", k, q);
        ++k;
    }
}
void verify_biverbs(const Nc& f, const biverb_list& must, const biverb_list& list, size_t i) {
    verify_name(f, i);
    if (must.empty() && f.dim("eigenverbs") <= 0) return;
    if (list.empty()) { sim::check(f.dim("eigenverbs") <= 0, "wrong-shape", "an empty interface gave %lld records", (long long)f.dim("eigenverbs")); return; }
    size_t nf = (*list.begin())->frequencies->size();
    dims(f, "frequencies", nf);
    auto fr = f.get("frequencies");
    for (size_t q = 0; q < nf; ++q) want(fr[q], (*(*list.begin())->frequencies)[q], "frequencies", q);
    auto tt = f.get("travel_time"), pw = f.get("power"), du = f.get("duration"), dx = f.get("de_index"), ax = f.get("az_index"), sd = f.get("source_de"), sa = f.get("source_az"),
         rd = f.get("receiver_de"), ra = f.get("receiver_az");
    auto su = f.get("source_surface"), bo = f.get("source_bottom"), ca = f.get("source_caustic"), up = f.get("source_upper"), lo = f.get("source_lower");
    auto rsu = f.get("receiver_surface"), rbo = f.get("receiver_bottom"), rca = f.get("receiver_caustic"), rup = f.get("receiver_upper"), rlo = f.get("receiver_lower");
    size_t k = 0;
    for (auto& v : by_time(tt, must, list)) {
        want(du[k], v->duration, "duration", k); want(dx[k], double(v->de_index), "de_index", k); want(ax[k], double(v->az_index), "az_index", k);
        want(sd[k], deg(v->source_de), "source_de", k); want(sa[k], deg(v->source_az), "source_az", k); want(rd[k], deg(v->receiver_de), "receiver_de", k); want(ra[k], deg(v->receiver_az), "receiver_az", k);
        want(su[k], v->source_surface, "source_surface", k); want(bo[k], v->source_bottom, "source_bottom", k); want(ca[k], v->source_caustic, "source_caustic", k); want(up[k], v->source_upper, "source_upper", k); want(lo[k], v->source_lower, "source_lower", k);
        want(rsu[k], v->receiver_surface, "receiver_surface", k); want(rbo[k], v->receiver_bottom, "receiver_bottom", k); want(rca[k], v->receiver_caustic, "receiver_caustic", k); want(rup[k], v->receiver_upper, "receiver_upper", k); want(rlo[k], v->receiver_lower, "receiver_lower", k);
        for (size_t q = 0; q < nf; ++q) want(pw[k * nf + q], db(v->power[q]), "power", k, q);
        ++k;
    }
}
void verify_series(const Nc& f, const rvbts_collection& c) {
    const auto& m = c.time_series();
    dims(f, "channels", m.size1()); dims(f, "travel_time", m.size2());
    scalar(f, "sourceID", double(c.source()->keyID())); scalar(f, "receiverID", double(c.receiver()->keyID()));
    scalar(f, "source_latitude", c.source_pos().latitude()); scalar(f, "source_longitude", c.source_pos().longitude()); scalar(f, "source_altitude", c.source_pos().altitude());
    scalar(f, "receiver_latitude", c.receiver_pos().latitude()); scalar(f, "receiver_longitude", c.receiver_pos().longitude()); scalar(f, "receiver_altitude", c.receiver_pos().altitude());
    orientation so(c.source_orient()), ro(c.receiver_orient());
    scalar(f, "source_yaw", so.yaw()); scalar(f, "source_pitch", so.pitch()); scalar(f, "source_roll", so.roll());
    scalar(f, "receiver_yaw", ro.yaw()); scalar(f, "receiver_pitch", ro.pitch()); scalar(f, "receiver_roll", ro.roll());
    scalar(f, "source_speed", c.source_speed()); scalar(f, "receiver_speed", c.receiver_speed());
    auto t = f.get("travel_time"), d = f.get("time_series"), ch = f.get("channels");
    for (size_t j = 0; j < m.size2(); ++j) want(t[j], (*c.travel_times())[j], "travel_time", j);
    for (size_t i = 0; i < m.size1(); ++i) { want(ch[i], double(i), "channels", i); for (size_t j = 0; j < m.size2(); ++j) want(d[i * m.size2() + j], m(i, j), "time_series", i, j); }
}
template <size_t N> void verify_grid(const Nc& f, const gen_grid<N>& g) {
    size_t n = 1;
    for (size_t i = 0; i < N; ++i) {
        char name[16]; snprintf(name, sizeof name, "axis%zu", i);
        dims(f, name, g.axis(i).size());
        auto a = f.get(name);
        for (size_t k = 0; k < a.size(); ++k) want(a[k], g.axis(i)[k], name, k);
        n *= g.axis(i).size();
    }
    scalar(f, "earth_radius", wposition::earth_radius);
    auto d = f.get("data");
    sim::check(d.size() == n, "wrong-shape", "%zu values in the file, %zu in the grid", d.size(), n);
    for (size_t k = 0; k < n; ++k) want(d[k], g.data()[k], "data", k);
}
// the lists of one interface, before and after a write
struct Lists { eigenverb_list verbs; biverb_list biverbs; };
Lists lists(const Product& p) {
    Lists l;
    if (p.kind == VERBS) l.verbs = p.verbs->eigenverbs(p.interface);
    if (p.kind == BIVERBS) l.biverbs = p.biverbs->biverbs(p.interface);
    return l;
}
void verify(const Product& p, const std::string& name, const Lists& must) {
    Lists may = lists(p);
    sim::NoPreempt np;
    Nc f(name);
    sim::check(f.ok, "unreadable", "the file written without error cannot be opened: %s", f.why.c_str());
    switch (p.kind) {
        case RAYS: verify_rays(f, *p.rays, p.named); break;
        case VERBS: verify_verbs(f, must.verbs, may.verbs, p.interface); break;
        case BIVERBS: verify_biverbs(f, must.biverbs, may.biverbs, p.interface); break;
        case RVBTS: verify_series(f, *p.series); break;
        case GRID1: verify_grid<1>(f, *p.g1); break;
        case GRID2: verify_grid<2>(f, *p.g2); break;
        default: verify_grid<3>(f, *p.g3);
    }
}

void arm(const sim::Plan& p, const char* name) {
    for (auto& o : p.ops) if (o.thr == -1 && o.is(name)) sim::io_arm(o.a[0], int(o.a[1]));
}
void gen_fault(sim::Rng& r, sim::Plan& p, const char* name, int horizon, bool reading) {
    int kinds[] = {sim::IO_EIO, sim::IO_ENOSPC, sim::IO_SHORT, sim::IO_EINTR};
    int k = reading ? (r.chance(0.6) ? sim::IO_EIO : r.chance(0.5) ? sim::IO_SHORT : sim::IO_EINTR) : kinds[r.below(4)];
    if (r.chance(0.4) && k != sim::IO_EINTR) k |= sim::IO_STICKY;
    p.add(-1, name, {r.range(0, horizon), k});
}

// ---- C17 ----------------------------------------------------------------
void results_gen(sim::Rng& r, sim::Plan& p) {
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) p.add(0, "write", {r.below(KINDS), r.below(3), int64_t(r.next() >> 1), 0, r.chance(0.6) ? 1 : 0, r.chance(0.3) ? r.range(1, 4) : 0});
    int nf = r.chance(0.15) ? 0 : r.range(1, 2);
    for (int i = 0; i < nf; ++i) gen_fault(r, p, "disk", r.chance(0.5) ? 12 : r.chance(0.5) ? 60 : 200, false);
    if (r.chance(0.4)) p.add(-1, "unbuffered", {1});
}
// adds to the written interface meanwhile
void grow(const Product& x, int n, uint64_t seed) {
    sim::Rng r(seed);
    Lists l = lists(x);
    for (int i = 0; i < n; ++i) {
        sim::point("grow");
        if (x.kind == VERBS) {
            auto f = l.verbs.empty() ? any_freqs(r, 2) : (*l.verbs.begin())->frequencies;
            x.verbs->add_eigenverb(any_verb(r, f, 100.0 + i), x.interface);
            if (l.verbs.empty()) return;
        } else if (x.kind == BIVERBS && !l.biverbs.empty()) {
            auto f = (*l.biverbs.begin())->frequencies;
            auto a = any_verb(r, f, 100.0 + i);
            for (size_t q = 0; q < f->size(); ++q) std::const_pointer_cast<eigenverb_model>(a)->power[q] = 1.0;
            x.biverbs->add_biverb(a, a, boost::numeric::ublas::vector<double>(f->size(), 0.1), x.interface);
        }
    }
}
// One write: a normal return means a complete file, a failing disk means an
// exception; the object is unchanged and can be written again.
void results_run(const sim::Plan& p) {
    sim::set_horizon(20000000, 0);
    buffering(p);
    int n = 0;
    each_op(p, 0, [&](const sim::Op& o) {
        Product x = make(int(o.a[0]) % KINDS, int(o.a[1]), uint64_t(o.a[2]));
        std::string name = std::string(sim::scratch()) + "/r" + std::to_string(n) + ".nc";
        ++n;
        bool growing = o.a[5] > 0 && (x.kind == VERBS || x.kind == BIVERBS);
        sim::set_density(growing ? 0.5 : 0.05);
        uint64_t before = x.digest();
        Lists must = lists(x);
        int fds = sim::open_fds();
        arm(p, "disk");
        uint64_t fired = sim::io_fired();
        bool threw = false;
        int adder = growing ? sim::spawn([&x, &o] { grow(x, int(o.a[5]), uint64_t(o.a[2]) + 7); }) : -1;
        try { x.write(name); } catch (const std::exception& e) { threw = true; sim::trace("write: %s", e.what()); }
        bool fault = sim::io_fired() > fired;
        sim::io_disarm();
        sim::trace("kind %d threw %d fault %d ops %llu", x.kind, threw, fault, (unsigned long long)sim::io_ops());
        if (threw) {
            sim::check(fault, "spurious-failure", "writing failed on a healthy disk");
            sim::probe("write-failed");
        } else {
            verify(x, name, must);
            sim::check(sim::open_fds() == fds, "left-open", "the file is still open after it was written");
            if (fault) sim::probe("fault-absorbed");
        }
        if (growing) { sim::join(adder); sim::probe("written-while-growing"); before = x.digest(); }
        sim::check(x.digest() == before, "object-changed", "writing changed the object");
        if (o.a[4] || threw) {
            std::string again = name + ".again";
            try { x.write(again); } catch (const std::exception& e) { sim::violate("retry-failed", "writing to a healthy disk failed after an earlier failure: %s", e.what()); }
            verify(x, again, lists(x));
            sim::check(x.digest() == before, "object-changed", "writing changed the object");
            sim::nontrivial();
        }
    });
}
sim::Registrar r1({"results-disk", results_gen, results_run, "1-3 products of random shape (eigenrays, eigenverbs, biverbs, time series, grids) are written to a disk that fails at a random operation; non-trivial when a product was written a second time after a failure or success"});

// ---- C18 ----------------------------------------------------------------
bool same_verb(const eigenverb_model& a, const eigenverb_model& b) {
    if (a.frequencies->size() != b.frequencies->size() || a.power.size() != b.power.size()) return false;
    for (size_t i = 0; i < a.frequencies->size(); ++i) if (!near((*a.frequencies)[i], (*b.frequencies)[i])) return false;
    for (size_t i = 0; i < a.power.size(); ++i) if (!near(db(a.power[i]), db(b.power[i]))) return false;
    return near(a.travel_time, b.travel_time) && near(a.length, b.length) && near(a.width, b.width) && near(a.position.latitude(), b.position.latitude()) &&
           near(a.position.longitude(), b.position.longitude()) && std::fabs(a.position.altitude() - b.position.altitude()) < 1e-6 && near(a.direction, b.direction) &&
           near(a.grazing, b.grazing) && near(a.sound_speed, b.sound_speed) && a.de_index == b.de_index && a.az_index == b.az_index && near(a.source_de, b.source_de) &&
           near(a.source_az, b.source_az) && a.surface == b.surface && a.bottom == b.bottom && a.caustic == b.caustic && a.upper == b.upper && a.lower == b.lower;
}
// the verbs of `got` are those of `base` (the same objects) and copies of those of `added`
void same_lists(const eigenverb_list& got, const eigenverb_list& base, const eigenverb_list& added, const char* when) {
    sim::check(got.size() == base.size() + added.size(), "wrong-data", "%s: %zu verbs, expected %zu and %zu more", when, got.size(), base.size(), added.size());
    std::vector<eigenverb_model::csptr> left(added.begin(), added.end());
    for (auto& g : got) {
        bool known = false;
        for (auto& b : base) known |= b == g;
        if (known) continue;
        size_t k = 0;
        while (k < left.size() && !same_verb(*left[k], *g)) ++k;
        sim::check(k < left.size(), "wrong-data", "%s: a verb at %.17g s was not in the collection that was written", when, g->travel_time);
        left.erase(left.begin() + long(k));
    }
    sim::check(left.empty(), "wrong-data", "%s: %zu verbs were lost", when, left.size());
}
// a copy of a file of eigenverbs that lacks one variable, has another name for
// it or a dimension, or another number of records there
void other_layout(const std::string& from, const std::string& to, sim::Rng& r) {
    int a, b, nd, nv;
    if (nc_open(from.c_str(), NC_NOWRITE, &a) != NC_NOERR) return;
    if (nc_create(to.c_str(), NC_NETCDF4 | NC_CLOBBER, &b) != NC_NOERR) { nc_close(a); return; }
    nc_inq(a, &nd, &nv, nullptr, nullptr);
    nc_copy_att(a, NC_GLOBAL, "long_name", b, NC_GLOBAL);
    int what = r.below(5), bad_dim = what == 0 ? int(r.below(uint32_t(nd))) : -1, bad_var = what ? int(r.below(uint32_t(nv))) : -1;
    int rec = -1, shorter = -1; size_t records = 0;
    nc_inq_dimid(a, "eigenverbs", &rec);
    nc_inq_dimlen(a, rec, &records);
    if (records < 2 && what >= 3) what = 1;
    char bad[NC_MAX_NAME + 1] = "";
    if (bad_var >= 0) nc_inq_varname(a, bad_var, bad);
    if (what >= 3 && !strcmp(bad, "frequencies")) what = 1;   // does not have records
    for (int i = 0; i < nd; ++i) {
        char n[NC_MAX_NAME + 1]; size_t len; int id;
        nc_inq_dim(a, i, n, &len);
        nc_def_dim(b, (std::string(n) + (i == bad_dim ? "_x" : "")).c_str(), len, &id);
    }
    std::vector<int> ids(static_cast<size_t>(nv), -1);
    for (int v = 0; v < nv; ++v) {
        char n[NC_MAX_NAME + 1]; nc_type t; int n_d, dims[NC_MAX_VAR_DIMS];
        nc_inq_var(a, v, n, &t, &n_d, dims, nullptr);
        if (v == bad_var && what == 1) continue;
        if (v == bad_var && what >= 3) {
            nc_def_dim(b, "fewer", size_t(1 + r.below(uint32_t(records - 1))), &shorter);
            for (int i = 0; i < n_d; ++i) if (dims[i] == rec) dims[i] = shorter;
        }
        nc_def_var(b, (std::string(n) + (v == bad_var && what == 2 ? "_x" : "")).c_str(), t, n_d, dims, &ids[size_t(v)]);
    }
    for (int v = 0; v < nv; ++v) if (ids[size_t(v)] >= 0) {
        int n_d, dims[NC_MAX_VAR_DIMS]; size_t total = 1;
        nc_inq_var(a, v, nullptr, nullptr, &n_d, dims, nullptr);
        for (int i = 0; i < n_d; ++i) { size_t l; nc_inq_dimlen(a, dims[i], &l); total *= l; }
        std::vector<double> d(total);
        nc_get_var_double(a, v, d.data());
        nc_put_var_double(b, ids[size_t(v)], d.data());
    }
    nc_close(b); nc_close(a);
}
void garbage(const std::string& to, sim::Rng& r) {
    FILE* f = fopen(to.c_str(), "w");
    if (!f) return;
    for (int n = int(r.below(3000)); n > 0; --n) fputc(int(r.below(256)), f);
    fclose(f);
}
long file_size(const std::string& n) { FILE* f = fopen(n.c_str(), "r"); if (!f) return -1; fseek(f, 0, SEEK_END); long l = ftell(f); fclose(f); return l; }

enum Read { HEALTHY, FAULTY, TRUNCATED, LAYOUT, FOREIGN, GARBAGE, MISSING, READS };
void readback_gen(sim::Rng& r, sim::Plan& p) {
    int n = r.range(1, 4);
    p.add(-1, "content", {int64_t(r.next() >> 1), r.chance(0.02) ? r.range(4, 20) : int64_t(r.below(4)), r.chance(0.02) ? r.range(4, 60) : r.range(1, 3), r.range(1, 5)});
    for (int i = 0; i < n; ++i) p.add(0, "read", {r.chance(0.45) ? FAULTY : r.below(READS), r.below(8), r.below(8), int64_t(r.next() >> 1), r.chance(0.5) ? 1 : 0, r.chance(0.25) ? r.range(1, 3) : 0});
    for (int i = 0, k = r.range(1, 2); i < k; ++i) gen_fault(r, p, "disk", r.chance(0.6) ? 15 : 60, true);
}
void readback_run(const sim::Plan& p) {
    sim::set_horizon(20000000, 0);
    sim::Rng c(1);
    std::shared_ptr<eigenverb_collection> from;
    for (auto& o : p.ops) if (o.thr == -1 && o.is("content")) { sim::Rng r{uint64_t(o.a[0])}; from = any_verbs(r, int(o.a[1]), int(o.a[2]), int(o.a[3])); }
    if (!from) return;
    int n = 0;
    each_op(p, 0, [&](const sim::Op& o) {
        sim::Rng r{uint64_t(o.a[3])};
        size_t wi = size_t(o.a[1]) % from->num_interfaces();
        std::string name = std::string(sim::scratch()) + "/v" + std::to_string(n++) + ".nc", use = name;
        sim::set_density(0.05);
        eigenverb_list saved = from->eigenverbs(wi);
        try { from->write_netcdf(name.c_str(), wi); } catch (const std::exception& e) { sim::violate("write-failed", "writing failed on a healthy disk: %s", e.what()); }
        int kind = int(o.a[0]) % READS;
        if (saved.empty() && (kind == LAYOUT)) kind = HEALTHY;
        bool must_fail = kind >= TRUNCATED;
        {
            sim::NoPreempt np;
            if (kind == TRUNCATED) { long l = file_size(name); long keep = long(r.below(uint32_t(l))); if (truncate(name.c_str(), keep) != 0) return; }
            if (kind == LAYOUT) { use = name + ".layout"; other_layout(name, use, r); }
            if (kind == GARBAGE) { use = name + ".garbage"; garbage(use, r); }
            if (kind == MISSING) use = name + ".missing";
        }
        if (kind == FOREIGN) {
            use = name + ".other";
            Product x = make(int(r.below(2)) ? RAYS : GRID2, 1, r.next());
            try { x.write(use); } catch (const std::exception&) { return; }
        }
        auto into = std::make_shared<eigenverb_collection>(3);
        size_t ri = size_t(o.a[2]) % into->num_interfaces();
        if (o.a[4]) for (int k = 0; k < 3; ++k) into->add_eigenverb(any_verb(r, any_freqs(r, 2), 1.0 + k), (ri + size_t(k)) % into->num_interfaces());
        std::vector<eigenverb_list> before;
        for (size_t i = 0; i < into->num_interfaces(); ++i) before.push_back(into->eigenverbs(i));
        int fds = sim::open_fds();
        if (kind == FAULTY) arm(p, "disk");
        uint64_t fired = sim::io_fired();
        bool threw = false;
        // others may look at the collection meanwhile
        bool watched = o.a[5] > 0;
        if (watched) sim::set_density(0.5);
        int watcher = watched ? sim::spawn([&] {
            for (int k = 0; k < int(o.a[5]); ++k) {
                size_t seen = into->eigenverbs(ri).size();
                sim::check(seen >= before[ri].size() && seen <= before[ri].size() + saved.size(), "wrong-data", "%zu verbs seen while reading", seen);
                sim::point("look");
            }
        }) : -1;
        uint64_t mark = sim::heap_mark();
        try { into->read_netcdf(use.c_str(), ri); } catch (const std::exception& e) { threw = true; sim::trace("read: %.60s", e.what()); }
        sim::Heap left = sim::heap_since(mark);
        bool fault = sim::io_fired() > fired;
        sim::io_disarm();
        if (watched) sim::join(watcher);
        sim::trace("read kind %d threw %d fault %d", kind, threw, fault);
        if (must_fail) sim::check(threw, "bad-file-accepted", "reading %s reported no error", kind == TRUNCATED ? "a truncated file" : kind == LAYOUT ? "a file of another layout" : kind == FOREIGN ? "another product's file" : kind == GARBAGE ? "garbage" : "a missing file");
        if (kind == HEALTHY) sim::check(!threw, "spurious-failure", "reading failed on a healthy disk");
        if (threw && kind == FAULTY) sim::check(fault, "spurious-failure", "reading failed on a healthy disk");
        for (size_t i = 0; i < into->num_interfaces(); ++i)
            same_lists(into->eigenverbs(i), before[i], !threw && i == ri ? saved : eigenverb_list(), threw ? "after a failed read" : "after reading");
        if (threw) {
            if (!fault) sim::check(sim::open_fds() == fds, "left-open", "a file is still open after reading it failed");
            if (!watched && left.count) { sim::heap_report(mark, 5); sim::violate("leak", "%llu blocks left after reading failed", (unsigned long long)left.count); }
            sim::probe("read-failed");
        } else {
            sim::check(sim::open_fds() == fds, "left-open", "the file is still open after it was read");
            if (fault) sim::probe("fault-absorbed");
            sim::nontrivial();
        }
        // still usable
        std::string good = name + ".good";
        auto fresh = std::make_shared<eigenverb_collection>(3);
        try { from->write_netcdf(good.c_str(), wi); fresh->read_netcdf(good.c_str(), ri); } catch (const std::exception& e) { sim::violate("retry-failed", "reading from a healthy disk failed after an earlier failure: %s", e.what()); }
        same_lists(fresh->eigenverbs(ri), eigenverb_list(), saved, "after reading again");
    });
}
sim::Registrar r2({"verbs-readback", readback_gen, readback_run, "eigenverbs of every interface are written and read back from healthy, failing, truncated, foreign and damaged files; non-trivial when a read succeeded"});
}  // namespace
