// Immutable models that are shared by several threads (C23): each call gives the
// value that it gives alone.
#include "pipeline.h"
#include <usml/beampatterns/beampatterns.h>
#include <usml/ocean/ambient_constant.h>
#include <usml/ocean/boundary_grid.h>
#include <usml/ocean/data_grid_mackenzie.h>
#include <usml/ocean/profile_grid.h>
#include <usml/ocean/reflect_loss_rayleigh_grid.h>
#include <usml/types/data_grid_bathy.h>
#include <usml/types/data_grid_svp.h>
#include <usml/beampatterns/bp_grid.h>
#include <usml/beampatterns/bp_solid.h>
#include <usml/transmit/transmit.h>
#include <usml/types/seq_augment.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_log.h>
#include <usml/types/seq_rayfan.h>
using namespace pl;
typedef boost::numeric::ublas::vector<double> dvec;
typedef boost::numeric::ublas::matrix<double> dmat;

namespace {
typedef std::vector<double> Answer;
typedef std::function<Answer(sim::Rng&)> Model;

// what output arguments hold before a call: no answer may depend on it
double junk = 0.0;
dvec out(size_t n) { return boost::numeric::ublas::scalar_vector<double>(n, junk); }
dmat out(const wposition& w) { return boost::numeric::ublas::scalar_matrix<double>(w.size1(), w.size2(), junk); }

void add(Answer& a, const dvec& v) { for (double x : v) a.push_back(x); }
void add(Answer& a, const dmat& m) { for (size_t i = 0; i < m.size1(); ++i) for (size_t j = 0; j < m.size2(); ++j) a.push_back(m(i, j)); }

seq_vector::csptr axis(sim::Rng& r, double a, double b, int least, bool any = true) {
    int n = r.range(least, least + 6), kind = any ? r.range(0, 3) : 0;
    if (kind == 1 && a > 0) return seq_vector::csptr(new seq_log(a, std::pow(b / a, 1.0 / (n - 1)), size_t(n)));
    if (kind == 2) {
        dvec v = dvec(size_t(n));
        double x = a; for (int i = 0; i < n; ++i) { v(size_t(i)) = x; x += (b - a) / n * (0.2 + 1.6 * r.unit()); }
        return seq_vector::csptr(new seq_data(v));
    }
    return seq_vector::csptr(new seq_linear(a, (b - a) / (n - 1), size_t(n)));
}
template <size_t N> std::shared_ptr<gen_grid<N>> grid(sim::Rng& r, const seq_vector::csptr* ax, double lo, double hi, int interp = 2) {
    auto g = std::make_shared<gen_grid<N>>(ax);
    size_t i[3] = {0, 0, 0}, total = 1; for (size_t n = 0; n < N; ++n) total *= ax[n]->size();
    for (size_t k = 0; k < total; ++k) {
        size_t q = k; for (size_t n = N; n-- > 0;) { i[n] = q % ax[n]->size(); q /= ax[n]->size(); }
        g->setdata(i, lo + (hi - lo) * r.unit());
    }
    for (size_t n = 0; n < N; ++n) {
        int kind = interp == 2 ? r.range(-1, 1) : interp;
        if (kind == 1 && ax[n]->size() < 4) kind = 0;
        g->interp_type(n, kind < 0 ? interp_enum::nearest : kind ? interp_enum::pchip : interp_enum::linear);
        g->edge_limit(n, r.chance(0.7));
    }
    return g;
}
const double R = wposition::earth_radius;
seq_vector::csptr some_freqs(sim::Rng& q) { return seq_vector::csptr(new seq_linear(100.0 + 50.0 * q.below(100), 100.0 + q.below(100), size_t(q.range(1, 4)))); }
wposition1 place(sim::Rng& q) { return wposition1(30.0 + q.unit(), 20.0 + q.unit(), -400.0 * q.unit()); }
wposition places(sim::Rng& q) {
    wposition w(size_t(q.range(1, 3)), size_t(q.range(1, 3)));
    for (size_t i = 0; i < w.size1(); ++i) for (size_t j = 0; j < w.size2(); ++j) { w.latitude(i, j, 30.0 + q.unit()); w.longitude(i, j, 20.0 + q.unit()); w.altitude(i, j, -400.0 * q.unit()); }
    return w;
}
seq_vector::csptr alts(sim::Rng& r, int least, bool any = true) { return axis(r, -400.0 + R, R, least, any); }
seq_vector::csptr lats(sim::Rng& r, int least, bool any = true) { return axis(r, to_colatitude(31.0), to_colatitude(30.0), least, any); }
seq_vector::csptr lngs(sim::Rng& r, int least, bool any = true) { return axis(r, to_radians(20.0), to_radians(21.0), least, any); }

// matrices of locations, as ray tracing asks for them
template <size_t N, class G> Answer matrices(const G& g, sim::Rng& q) {
    wposition w(size_t(q.range(1, 3)), size_t(q.range(1, 3)));
    dmat x[3] = {out(w), out(w), out(w)}, v = out(w), d[3] = {v, v, v};
    for (size_t n = 0; n < N; ++n) for (size_t i = 0; i < w.size1(); ++i) for (size_t j = 0; j < w.size2(); ++j) { double lo = g.axis(n)[0], hi = g.axis(n)[g.axis(n).size() - 1]; x[n](i, j) = lo + (hi - lo) * (0.05 + 0.9 * q.unit()); }
    bool derive = q.chance(0.5);
    if constexpr (N == 1) g.interpolate(x[0], &v, derive ? &d[0] : nullptr);
    if constexpr (N == 2) g.interpolate(x[0], x[1], &v, derive ? &d[0] : nullptr, derive ? &d[1] : nullptr);
    if constexpr (N == 3) g.interpolate(x[0], x[1], x[2], &v, derive ? &d[0] : nullptr, derive ? &d[1] : nullptr, derive ? &d[2] : nullptr);
    Answer a; add(a, v); for (size_t n = 0; n < N && derive; ++n) add(a, d[n]);
    return a;
}
template <size_t N> Model grid_model(std::shared_ptr<const gen_grid<N>> g) {
    return [g](sim::Rng& q) {
        if (q.chance(0.3)) return matrices<N>(static_cast<const data_grid<N>&>(*g), q);
        double x[N], d[N]; Answer a;
        for (size_t n = 0; n < N; ++n) { double lo = g->axis(n)[0], hi = g->axis(n)[g->axis(n).size() - 1]; x[n] = lo + (hi - lo) * (q.unit() * 1.1 - 0.05); if (q.chance(0.2)) x[n] = g->axis(n)[q.below(uint32_t(g->axis(n).size()))]; }
        a.push_back(g->interpolate(x, q.chance(0.5) ? d : nullptr));
        double e[N]; a.push_back(g->interpolate(x, e)); for (double v : e) a.push_back(v);
        return a;
    };
}
Model profile(profile_model::csptr p) {
    return [p](sim::Rng& q) {
        Answer a; wposition w = places(q); auto f = some_freqs(q);
        dmat c = out(w); wvector g(w.size1(), w.size2());
        if (q.chance(0.5)) p->sound_speed(w, &c); else { p->sound_speed(w, &c, &g); add(a, g.rho()); add(a, g.theta()); add(a, g.phi()); }
        add(a, c);
        dmat dist(w.size1(), w.size2()); boost::numeric::ublas::matrix<dvec> att(w.size1(), w.size2());
        for (size_t i = 0; i < w.size1(); ++i) for (size_t j = 0; j < w.size2(); ++j) { dist(i, j) = 1000.0 * q.unit(); att(i, j) = out(f->size()); }
        p->attenuation(w, f, dist, &att);
        for (size_t i = 0; i < w.size1(); ++i) for (size_t j = 0; j < w.size2(); ++j) add(a, att(i, j));
        return a;
    };
}
// scattering from many places at once
template <class M> void many(Answer& a, const M& m, sim::Rng& q, const seq_vector::csptr& f) {
    wposition w = places(q); dmat de = out(w), az = de; boost::numeric::ublas::matrix<dvec> s(w.size1(), w.size2());
    for (size_t i = 0; i < w.size1(); ++i) for (size_t j = 0; j < w.size2(); ++j) { de(i, j) = 0.1 + q.unit(); az(i, j) = 6.0 * q.unit(); s(i, j) = out(f->size()); }
    m.scattering(w, f, 0.1 + q.unit(), de, q.unit(), az, &s);
    for (size_t i = 0; i < w.size1(); ++i) for (size_t j = 0; j < w.size2(); ++j) add(a, s(i, j));
}
Model boundary(boundary_model::csptr b) {
    return [b](sim::Rng& q) {
        Answer a; auto f = some_freqs(q);
        if (q.chance(0.5)) {
            wposition w = places(q); dmat h = out(w); wvector n(w.size1(), w.size2());
            b->height(w, &h, &n); add(a, h); add(a, n.rho()); add(a, n.theta()); add(a, n.phi());
        } else { double h = junk; wvector1 n; b->height(place(q), &h, &n); a = {h, n.rho(), n.theta(), n.phi()}; }
        dvec amp = out(f->size()), ph = amp, s = amp;
        double angle = 0.1 + 1.3 * q.unit();
        b->reflect_loss(place(q), f, angle, &amp, &ph); add(a, amp); add(a, ph);
        b->scattering(place(q), f, angle, 0.1 + q.unit(), q.unit(), q.unit(), &s); add(a, s);
        if (q.chance(0.3)) many(a, *b, q, f);
        return a;
    };
}
Model beam(bp_model::csptr b) {
    // the others integrate over all directions
    bool quick = dynamic_cast<const bp_line*>(b.get()) || dynamic_cast<const bp_planar*>(b.get()) || dynamic_cast<const bp_piston*>(b.get()) || dynamic_cast<const bp_omni*>(b.get());
    return [b, quick](sim::Rng& q) {
        Answer a; auto f = some_freqs(q); dvec l = out(f->size());
        bvector in(90.0 * q.unit() - 45.0, 360.0 * q.unit()), steer(40.0 * q.unit() - 20.0, 360.0 * q.unit());
        double c = 1450.0 + 100.0 * q.unit();
        b->beam_level(in, f, &l, steer, c); add(a, l);
        if (q.chance(0.5)) { l = out(f->size()); b->beam_level(in, orientation(360.0 * q.unit(), 10.0 * q.unit(), 10.0 * q.unit()), f, &l, steer, c); add(a, l); }
        if (q.chance(quick ? 0.5 : 0.05)) { dvec g = out(f->size()); b->directivity(f, &g, steer, c); add(a, g); }
        return a;
    };
}

// products of a wavefront, as published for a sensor
struct Products { std::shared_ptr<eigenray_collection> rays; std::shared_ptr<eigenverb_collection> src, rcv; std::shared_ptr<biverb_collection> bi; std::shared_ptr<rvbts_collection> ts; ocean_model::csptr ocean; };
std::shared_ptr<Products> products(uint64_t seed) {
    sim::Rng r(seed);
    auto p = std::make_shared<Products>();
    p->ocean = make_ocean(200.0, 1500.0, -30.0, r.range(0, 2), r.chance(0.5) ? nullptr : profile_model::csptr(new profile_linear(1500.0, 0.05, attenuation_model::csptr(new attenuation_thorp))));
    auto f = freqs(int(r.below(2)));
    size_t n1 = size_t(r.range(1, 2)), n2 = size_t(r.range(1, 2));
    wposition targets(n1, n2); matrix<uint64_t> ids(n1, n2);
    for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) { ids(i, j) = 10 * i + j + 1; targets.latitude(i, j, 36.0 + 0.002 * r.unit()); targets.longitude(i, j, 16.0 + 0.002 * r.unit()); targets.altitude(i, j, -150.0 * r.unit() - 10.0); }
    Fan fan;
    auto go = [&](const wposition1& at, std::shared_ptr<eigenverb_collection>& verbs, bool rays) {
        wave_queue wave(p->ocean, f, at, fan.de, fan.az, fan.step, &targets);
        if (rays) { p->rays = std::make_shared<eigenray_collection>(f, at, targets, 7, ids, r.chance(0.5)); wave.add_eigenray_listener(p->rays.get()); }
        verbs = std::make_shared<eigenverb_collection>(p->ocean->num_volume());
        wave.add_eigenverb_listener(verbs.get());
        while (wave.time() < 0.3) wave.step();
    };
    wposition1 at(36.0, 16.0, -80.0), to(36.0005, 16.0008, -95.0);
    go(at, p->src, true); p->rays->sum_eigenrays();
    go(to, p->rcv, false);
    p->bi = recompute_biverbs(p->ocean, *p->src, *p->rcv);
    auto sensor = [&](uint64_t key, const wposition1& w) { auto s = std::make_shared<sensor_model>(key, "s", 0.0, w); s->src_beam(0, bp_model::csptr(new bp_omni())); s->rcv_beam(0, bp_model::csptr(new bp_line(4, 0.75, HLA))); s->rcv_beam(1, bp_model::csptr(new bp_omni())); s->time_maximum(0.5); return s; };
    auto S = sensor(1, at), R = sensor(2, to);
    p->ts = std::make_shared<rvbts_collection>(S, at, orientation(), 0.0, R, to, orientation(), 0.0, seq_vector::csptr(new seq_linear(0.0, 0.1, 0.5)));
    auto l = make_schedule(int(r.below(4)));
    for (size_t i = 0; i < p->bi->num_interfaces(); ++i) for (auto& v : p->bi->biverbs(i)) for (auto& t : l) p->ts->add_biverb(v, t, bvector(t->orderedDE, t->orderedAZ));
    return p;
}
void add(Answer& a, const eigenray_list& l) { for (auto& e : l) { a.push_back(e->travel_time); a.push_back(e->source_de); a.push_back(e->source_az); a.push_back(e->target_de); a.push_back(e->target_az); add(a, e->intensity); add(a, e->phase); } a.push_back(double(l.size())); }
Model use(std::shared_ptr<const Products> p) {
    return [p](sim::Rng& q) {
        Answer a;
        const auto& r = *p->rays;
        size_t i = q.below(uint32_t(r.size1())), j = q.below(uint32_t(r.size2()));
        switch (q.below(8)) {
            case 0: add(a, r.eigenrays(i, j)); a.push_back(r.initial_time(i, j)); add(a, r.total(i, j).intensity); add(a, r.total(i, j).phase); break;
            case 1: { uint64_t id = q.below(13); add(a, r.find_eigenrays(id)); a.push_back(r.find_initial_time(id)); break; }
            case 2: {
                wposition1 at = r.source_position(), to = r.position(i, j);
                at.altitude(at.altitude() - 5.0 * q.unit()); to.latitude(to.latitude() + 1e-4 * q.unit());
                auto l = r.dead_reckon(i, j, at, to, p->ocean->profile()); add(a, l);
                if (!l.empty()) sim::probe("dead reckoned");
                break;
            }
            case 3: case 4: {
                const auto& v = q.chance(0.5) ? *p->src : *p->rcv;
                size_t n = q.below(uint32_t(v.num_interfaces())); a.push_back(double(v.size(n)));
                Answer sum; for (auto& e : v.eigenverbs(n)) { sum.push_back(e->travel_time); for (double x : e->power) sum.push_back(x); }
                std::sort(sum.begin(), sum.end()); a.insert(a.end(), sum.begin(), sum.end());
                break;
            }
            case 5: {
                size_t n = q.below(uint32_t(p->rcv->num_interfaces())); Answer sum;
                for (auto& e : p->rcv->eigenverbs(n)) { auto l = p->src->find_eigenverbs(e, n); sum.push_back(double(l.size())); for (auto& o : l) sum.push_back(o->travel_time); }
                std::sort(sum.begin(), sum.end()); a = sum;
                break;
            }
            case 6: {
                size_t n = q.below(uint32_t(p->bi->num_interfaces())); Answer sum;
                for (auto& e : p->bi->biverbs(n)) { sum.push_back(e->travel_time); sum.push_back(e->duration); for (double x : e->power) sum.push_back(x); }
                std::sort(sum.begin(), sum.end()); a = sum; a.push_back(double(p->bi->size(n)));
                break;
            }
            default: { const auto& t = *p->ts; add(a, t.time_series()); for (size_t k = 0; k < t.travel_times()->size(); ++k) a.push_back((*t.travel_times())[k]); a.push_back(t.source_pos().rho()); a.push_back(t.receiver_pos().phi()); break; }
        }
        return a;
    };
}

enum { PRODUCTS = 16, KINDS = 16 };
const char* names[KINDS + 1] = {"1-D grid", "2-D grid", "3-D grid", "fast sound speed grid", "fast bathymetry grid", "analytic profile", "gridded profile", "boundary", "gridded boundary", "bottom provinces", "volume", "ambient noise", "beam pattern", "axis", "ocean", "transmission", "set of acoustic products"};
Model make(int kind, uint64_t seed) {
    sim::Rng r(seed);
    auto loss = [&r]() -> reflect_loss_model::csptr {
        switch (r.below(6)) {
            case 0: return reflect_loss_model::csptr(new reflect_loss_constant(3.0 * r.unit()));
            case 5: return reflect_loss_model::csptr(new reflect_loss_rayleigh(bottom_type_enum(r.below(8))));
            case 1: return reflect_loss_model::csptr(new reflect_loss_rayleigh(1.5 + r.unit(), 0.95 + 0.3 * r.unit(), r.unit(), r.chance(0.5) ? 0.2 : 0.0, 0.3));
            case 2: return reflect_loss_model::csptr(new reflect_loss_beckmann(1.0 + 10.0 * r.unit()));
            case 3: return reflect_loss_model::csptr(new reflect_loss_eckart(1.0 + 10.0 * r.unit()));
            default: return reflect_loss_model::csptr(new reflect_loss_rayleigh(size_t(r.below(6))));
        }
    };
    auto scatter = [&r]() -> scattering_model::csptr {
        switch (r.below(3)) {
            case 0: return scattering_model::csptr(new scattering_constant(-20.0 - 10.0 * r.unit()));
            case 1: return scattering_model::csptr(new scattering_lambert(-20.0 - 10.0 * r.unit()));
            default: return scattering_model::csptr(new scattering_chapman(1.0 + 10.0 * r.unit()));
        }
    };
    auto att = [&r] { return attenuation_model::csptr(r.chance(0.5) ? static_cast<attenuation_model*>(new attenuation_thorp) : new attenuation_constant(0.01 * r.unit())); };
    auto analytic = [&]() -> profile_model::csptr {
        switch (r.below(5)) {
            case 0: return profile_model::csptr(new profile_linear(1500.0, 0.1 * r.unit(), att()));
            case 1: return profile_model::csptr(new profile_linear(1500.0, -0.1 * r.unit(), -200.0, 0.02, att()));
            case 2: return profile_model::csptr(new profile_munk(200.0, 200.0, 1500.0, 7e-3, att()));
            case 3: return profile_model::csptr(new profile_n2(1500.0, 0.1 * r.unit(), att()));
            default: return profile_model::csptr(new profile_catenary(1500.0, 0.01, -200.0, att()));
        }
    };
    auto edge = [&]() -> boundary_model::csptr {
        if (r.chance(0.5)) return boundary_model::csptr(new boundary_flat(400.0 * r.unit(), loss(), scatter()));
        return boundary_model::csptr(new boundary_slope(wposition1(30.0, 20.0), 200.0, 0.01 * r.unit(), 0.01 * r.unit(), loss(), scatter()));
    };
    switch (kind) {
        case PRODUCTS: return use(products(seed));
        case 0: { seq_vector::csptr ax[1] = {axis(r, 1.0, 20.0, 1)}; return grid_model<1>(grid<1>(r, ax, -5, 5)); }
        case 1: { seq_vector::csptr ax[2] = {axis(r, 1.0, 20.0, 1), axis(r, -3.0, 3.0, 1)}; return grid_model<2>(grid<2>(r, ax, -5, 5)); }
        case 2: { seq_vector::csptr ax[3] = {axis(r, 1.0, 20.0, 1), axis(r, -3.0, 3.0, 1), axis(r, 10.0, 0.0, 2, false)}; return grid_model<3>(grid<3>(r, ax, -5, 5)); }
        case 3: {
            seq_vector::csptr ax[3] = {axis(r, R, -400.0 + R, 4, false), lats(r, 3, false), lngs(r, 3, false)};
            auto g = std::make_shared<const data_grid_svp>(grid<3>(r, ax, 1450, 1550, 0));
            return [g](sim::Rng& q) { if (q.chance(0.3)) return matrices<3>(*g, q); double x[3], d[3]; for (size_t n = 0; n < 3; ++n) { double lo = g->axis(n)[0], hi = g->axis(n)[g->axis(n).size() - 1]; x[n] = lo + (hi - lo) * (1.3 * q.unit() - 0.15); } double v = g->interpolate(x, d); return Answer{v, d[0], d[1], d[2]}; };
        }
        case 4: {
            seq_vector::csptr ax[2] = {lats(r, 5, false), lngs(r, 5, false)};
            auto g = std::make_shared<const data_grid_bathy>(grid<2>(r, ax, R - 400, R, r.chance(0.5) ? 1 : r.chance(0.5) ? 0 : -1));
            return [g](sim::Rng& q) { if (q.chance(0.3)) return matrices<2>(*g, q); double x[2], d[2]; for (size_t n = 0; n < 2; ++n) { double lo = g->axis(n)[0], hi = g->axis(n)[g->axis(n).size() - 1]; x[n] = lo + (hi - lo) * (1.3 * q.unit() - 0.15); } double v = g->interpolate(x, d); return Answer{v, d[0], d[1]}; };
        }
        case 5: return profile(analytic());
        case 6: {
            if (r.chance(0.4)) { seq_vector::csptr ax[1] = {alts(r, 4)}; return profile(profile_model::csptr(new profile_grid<1>(grid<1>(r, ax, 1450, 1550), att()))); }
            seq_vector::csptr ax[3] = {alts(r, 4), lats(r, 2), lngs(r, 2)};
            if (r.chance(0.5)) return profile(profile_model::csptr(new profile_grid<3>(grid<3>(r, ax, 1450, 1550), att())));
            auto t = grid<3>(r, ax, 5, 15, 0), s = grid<3>(r, ax, 34, 36, 0);
            return profile(profile_model::csptr(new profile_grid<3>(data_grid<3>::csptr(new data_grid_mackenzie(t, s)), att())));
        }
        case 7: return boundary(edge());
        case 8: { seq_vector::csptr ax[2] = {lats(r, 2), lngs(r, 2)}; return boundary(boundary_model::csptr(new boundary_grid<2>(grid<2>(r, ax, R - 400, R), loss(), scatter()))); }
        case 9: {
            seq_vector::csptr ax[2] = {lats(r, 1), lngs(r, 1)};
            auto g = grid<2>(r, ax, 0, 1, -1);
            size_t i[2]; for (i[0] = 0; i[0] < ax[0]->size(); ++i[0]) for (i[1] = 0; i[1] < ax[1]->size(); ++i[1]) g->setdata(i, double(r.below(6)));
            std::shared_ptr<const reflect_loss_model> m(new reflect_loss_rayleigh_grid(g));
            return [m](sim::Rng& q) { Answer a; auto f = some_freqs(q); dvec x = out(f->size()), y = x; m->reflect_loss(place(q), f, 0.1 + q.unit(), &x, &y); add(a, x); add(a, y); return a; };
        }
        case 10: {
            volume_model::csptr v(new volume_flat(100.0, 20.0, scatter()));
            return [v](sim::Rng& q) { Answer a; auto f = some_freqs(q); double h = junk, t = junk; v->depth(place(q), &h, &t); a = {h, t}; dvec s = out(f->size()); v->scattering(place(q), f, q.unit(), q.unit(), q.unit(), q.unit(), &s); add(a, s); if (q.chance(0.3)) many(a, *v, q, f); return a; };
        }
        case 11: {
            ambient_model::csptr m(r.chance(0.8) ? static_cast<ambient_model*>(new ambient_wenz(10.0 * r.unit(), int(r.below(8)), int(r.below(4)))) : new ambient_constant(60.0));
            return [m](sim::Rng& q) { Answer a; auto f = some_freqs(q); dvec n = out(f->size()); m->ambient(place(q), f, &n); add(a, n); return a; };
        }
        case 12: {
            auto one = [&]() -> bp_model::csptr {
                switch (r.below(10)) {
                    case 8: return bp_model::csptr(new bp_solid(20.0 + 50.0 * r.unit(), 20.0 + 200.0 * r.unit()));
                    case 9: { seq_vector::csptr ax[3] = {axis(r, 100.0, 6000.0, 1), axis(r, -90.0, 90.0, 2), axis(r, -180.0, 180.0, 2)}; return bp_model::csptr(new bp_grid(grid<3>(r, ax, 0.0, 1.0))); }
                    case 0: return bp_model::csptr(new bp_omni());
                    case 1: return bp_model::csptr(new bp_line(unsigned(r.range(2, 20)), 0.75, r.chance(0.5) ? HLA : VLA));
                    case 2: return bp_model::csptr(new bp_cardioid(r.unit()));
                    case 3: return bp_model::csptr(new bp_piston(1.0 + r.unit(), r.chance(0.5)));
                    case 4: return bp_model::csptr(new bp_planar(unsigned(r.range(2, 8)), 0.5, unsigned(r.range(2, 8)), 0.6, r.chance(0.5)));
                    case 5: return bp_model::csptr(new bp_trig(r.chance(0.5) ? bp_trig_type::cosine : bp_trig_type::sine, -30.0));
                    case 6: return bp_model::csptr(new bp_gaussian(10.0 + 30.0 * r.unit(), 60.0));
                    default: { dmat e(4, 3); for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 3; ++j) e(i, j) = r.unit(); return bp_model::csptr(new bp_arb(e, r.chance(0.5))); }
                }
            };
            if (r.chance(0.3)) return beam(bp_model::csptr(new bp_multi({one(), one()}, r.chance(0.5) ? bp_multi_type::product : bp_multi_type::sum)));
            return beam(one());
        }
        case 13: {
            seq_vector::csptr a = r.chance(0.2) ? seq_vector::csptr(new seq_rayfan(-60.0, 60.0, size_t(r.range(9, 30)), 0.0)) : r.chance(0.2) ? seq_vector::csptr(new seq_augment(axis(r, 1.0, 50.0, 5, false), size_t(2 * r.range(1, 3)))) : axis(r, 1.0, 50.0, 2);
            return [a](sim::Rng& q) {
                Answer v; double lo = (*a)[0], hi = (*a)[a->size() - 1], x = lo + (hi - lo) * (1.2 * q.unit() - 0.1);
                v = {double(a->find_index(x)), double(a->find_nearest(x)), (*a)[q.below(uint32_t(a->size()))], a->increment(q.below(uint32_t(a->size() - 1)))};
                return v;
            };
        }
        case 14: {
            std::vector<volume_model::csptr> layers; if (r.chance(0.5)) layers.push_back(volume_model::csptr(new volume_flat(100.0, 20.0, -40.0)));
            ocean_model::csptr o(new ocean_model(edge(), edge(), analytic(), &layers));
            int n = r.range(2, 4); double step = 0.05 + 0.1 * r.unit();
            auto type = r.chance(0.5) ? wave_queue::HYBRID_GAUSSIAN : wave_queue::CLASSIC_RAY;
            // a wavefront of each thread in one ocean
            return [o, n, step, type](sim::Rng& q) {
                Answer a;
                wposition targets(1, 1); targets.latitude(0, 0, 30.5 + 0.002 * q.unit()); targets.longitude(0, 0, 20.5 + 0.002 * q.unit()); targets.altitude(0, 0, -100.0 * q.unit());
                auto f = freqs(int(q.below(2)));
                wave_queue w(o, f, wposition1(30.5, 20.5, -50.0), seq_vector::csptr(new seq_linear(-30.0, 20.0, size_t(4))), seq_vector::csptr(new seq_linear(0.0, 90.0, size_t(4))), step, &targets, type);
                auto rays = std::make_shared<eigenray_collection>(f, wposition1(30.5, 20.5, -50.0), targets, 1);
                w.add_eigenray_listener(rays.get());
                for (int i = 0; i < n; ++i) w.step();
                for (auto& e : rays->eigenrays(0, 0)) { sim::probe(type == wave_queue::CLASSIC_RAY ? "classic ray found" : "hybrid ray found"); a.push_back(e->travel_time); a.push_back(e->source_de); add(a, e->intensity); add(a, e->phase); }
                const auto& c = *w.curr();
                add(a, c.position.rho()); add(a, c.position.theta()); add(a, c.position.phi()); a.push_back(w.time());
                return a;
            };
        }
        default: {
            auto shade = window::type(r.below(4));
            if (r.chance(0.7)) {
                std::shared_ptr<transmit_model> t;
                if (r.chance(0.5)) t.reset(new transmit_cw("CW", 0.05 * r.unit() + 0.01, 950.0, 0.0, 200.0, shade, r.unit(), 0.0, 0.0, 0));
                else t.reset(new transmit_lfm("LFM", 0.05 * r.unit() + 0.01, 100.0, 950.0, 0.0, 200.0, shade, r.unit(), 0.0, 0.0, 0));
                return [t](sim::Rng& q) { Answer a; double phase = junk; cdvector v = t->asignal(400.0 + 400.0 * q.unit(), 900.0, q.unit(), &phase); a.push_back(phase); for (auto& x : v) { a.push_back(x.real()); a.push_back(x.imag()); } return a; };
            }
            transmit_model::csptr t = make_schedule(int(r.below(4))).front();
            return [t](sim::Rng&) { return Answer{t->duration, t->fcenter, t->source_level, t->delay, t->orderedDE, t->orderedAZ}; };
        }
    }
}

void gen(sim::Rng& r, sim::Plan& p) {
    int models = r.range(1, 3), threads = r.range(2, 4);
    for (int i = 0; i < models; ++i) p.add(-1, "model", {r.below(KINDS), int64_t(r.next() >> 1)});
    p.add(-1, "density", {r.range(1, 8)});
    for (int t = 0; t < threads; ++t) for (int k = r.range(1, 4); k > 0; --k) p.add(t, "ask", {r.below(uint32_t(models)), r.chance(0.3) ? int64_t(r.below(3)) : int64_t(r.next() >> 1)});
}
void gen_products(sim::Rng& r, sim::Plan& p) {
    p.add(-1, "model", {PRODUCTS, int64_t(r.next() >> 1)});
    p.add(-1, "density", {r.range(0, 6)});
    int threads = r.range(2, 4);
    for (int t = 0; t < threads; ++t) for (int k = r.range(1, 6); k > 0; --k) p.add(t, "ask", {0, r.chance(0.3) ? int64_t(r.below(3)) : int64_t(r.next() >> 1)});
}
void run(const sim::Plan& p) {
    sim::set_density(1.0 / double(1 << p.cfg("density", 4)));
    sim::set_horizon(8000000, 0);
    std::vector<Model> shared, apart; std::vector<int> kind;
    for (auto& o : p.ops) if (o.thr == -1 && o.is("model")) { int k = int(o.a[0]) % (KINDS + 1); kind.push_back(k); shared.push_back(make(k, uint64_t(o.a[1]))); apart.push_back(make(k, uint64_t(o.a[1]))); }
    if (shared.empty()) return;
    junk = 0.0;
    // alone, from models of their own
    std::map<std::pair<size_t, int64_t>, Answer> expect;
    for (auto& o : p.ops) if (o.thr >= 0) { size_t m = size_t(o.a[0]) % apart.size(); sim::Rng q(uint64_t(o.a[1])); sim::NoPreempt np; expect[{m, o.a[1]}] = apart[m](q); }
    junk = std::nan("");
    run_clients(p, [&](int, const sim::Op& o) {
        size_t m = size_t(o.a[0]) % shared.size();
        sim::Rng q(uint64_t(o.a[1]));
        Answer got = shared[m](q);
        sim::NoPreempt np;
        const Answer& want = expect[{m, o.a[1]}];
        sim::check(got.size() == want.size(), "wrong-size", "a %s gave %zu values among other threads and %zu alone", names[kind[m]], got.size(), want.size());
        for (size_t i = 0; i < got.size(); ++i)
            sim::check(memcmp(&got[i], &want[i], sizeof(double)) == 0 || (got[i] != got[i] && want[i] != want[i]), "wrong-value", "a %s gave %.17g among other threads and %.17g alone", names[kind[m]], got[i], want[i]);
        sim::nontrivial();
    });
}
sim::Registrar r1({"shared-models", gen, run, "2-4 threads ask 1-3 shared immutable models (grids, profiles, boundaries, losses, noise, beam patterns, axes, oceans); non-trivial when a value was compared"});
sim::Registrar r2({"shared-products", gen_products, run, "2-4 threads read one set of acoustic products at once; non-trivial when a value was compared"});
}  // namespace
