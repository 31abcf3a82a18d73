// Shared parts of the acoustic pipeline scenarios: a small ocean, sensors with
// coarse ray fans, digests of the products, and their sequential recomputation.
#pragma once
#include "common.h"
#include <usml/beampatterns/bp_line.h>
#include <usml/beampatterns/bp_omni.h>
#include <usml/biverbs/biverb_collection.h>
#include <usml/eigenrays/eigenray_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/ocean/ocean.h>
#include <usml/ocean/volume_flat.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts_collection.h>
#include <usml/sensors/sensor_manager.h>
#include <usml/sensors/sensor_model.h>
#include <usml/sensors/sensor_pair.h>
#include <usml/threads/thread_controller.h>
#include <usml/threads/thread_pool.h>
#include <usml/threads/thread_task.h>
#include <usml/transmit/transmit_cw.h>
#include <usml/types/seq_linear.h>
#include <usml/wavegen/wavefront_generator.h>
#include <usml/wavegen/wavefront_listener.h>
#include <usml/waveq3d/waveq3d.h>
#include <algorithm>
#include <cmath>

namespace pl {
using namespace usml::beampatterns;
using namespace usml::biverbs;
using namespace usml::eigenrays;
using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::platforms;
using namespace usml::rvbts;
using namespace usml::sensors;
using namespace usml::threads;
using namespace usml::transmit;
using namespace usml::types;
using namespace usml::wavegen;
using namespace usml::waveq3d;

// ---- digests: every bit of a product counts ----------------------------
struct Digest {
    uint64_t h = 1469598103934665603ull;
    void u(uint64_t v) { for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
    void d(double v) { if (v != v) { u(0x7ff8000000000000ull); return; } uint64_t b; memcpy(&b, &v, 8); u(b); }   // any NaN alike
    void seq(const seq_vector& s) { u(s.size()); for (size_t i = 0; i < s.size(); ++i) d(s[i]); }
    template <class V> void vec(const V& v) { u(v.size()); for (size_t i = 0; i < v.size(); ++i) d(v[i]); }
    void pos(const wposition1& p) { d(p.rho()); d(p.theta()); d(p.phi()); }
    void ray(const eigenray_model& r, bool swap = false) {
        d(r.travel_time); seq(*r.frequencies); vec(r.intensity); vec(r.phase);
        if (swap) { d(r.target_de); d(r.target_az); d(r.source_de); d(r.source_az); }
        else { d(r.source_de); d(r.source_az); d(r.target_de); d(r.target_az); }
        u(uint64_t(r.surface)); u(uint64_t(r.bottom)); u(uint64_t(r.caustic)); u(uint64_t(r.upper)); u(uint64_t(r.lower));
    }
};
inline uint64_t dig_rays(const eigenray_list& l, bool swap = false) {
    Digest g; g.u(l.size());
    for (auto& r : l) g.ray(*r, swap);
    return g.h;
}
inline uint64_t dig(const eigenray_collection& c) {
    Digest g; g.u(c.size1()); g.u(c.size2()); g.u(c.sourceID()); g.pos(c.source_position()); g.seq(*c.frequencies());
    for (size_t i = 0; i < c.size1(); ++i) for (size_t j = 0; j < c.size2(); ++j) {
        g.u(c.targetID(i, j)); g.pos(c.position(i, j)); g.u(dig_rays(c.eigenrays(i, j))); g.d(c.initial_time(i, j));
        const eigenray_model& t = c.total(i, j);
        g.vec(t.intensity); g.vec(t.phase); g.d(t.travel_time); g.d(t.source_de); g.d(t.source_az); g.d(t.target_de); g.d(t.target_az);
        g.u(uint64_t(t.surface)); g.u(uint64_t(t.bottom)); g.u(uint64_t(t.caustic));
    }
    return g.h;
}
inline uint64_t dig(const eigenverb_collection& c) {
    Digest g; g.u(c.num_interfaces());
    for (size_t i = 0; i < c.num_interfaces(); ++i) {
        auto l = c.eigenverbs(i);
        std::vector<uint64_t> each;              // a set: the order in which a spatial index lists it is its own business
        for (auto& v : l) {
            Digest e;
            e.d(v->travel_time); e.seq(*v->frequencies); e.vec(v->power); e.d(v->length); e.d(v->width); e.pos(v->position); e.d(v->direction);
            e.d(v->grazing); e.d(v->sound_speed); e.u(v->de_index); e.u(v->az_index); e.d(v->source_de); e.d(v->source_az);
            e.u(uint64_t(v->surface)); e.u(uint64_t(v->bottom)); e.u(uint64_t(v->caustic)); e.u(uint64_t(v->upper)); e.u(uint64_t(v->lower));
            each.push_back(e.h);
        }
        std::sort(each.begin(), each.end());
        g.u(each.size()); for (auto h : each) g.u(h);
    }
    return g.h;
}
inline uint64_t dig(const biverb_collection& c) {
    Digest g; g.u(c.num_interfaces());
    for (size_t i = 0; i < c.num_interfaces(); ++i) {
        auto l = c.biverbs(i);
        std::vector<uint64_t> each;
        for (auto& v : l) {
            Digest e;
            e.d(v->travel_time); e.seq(*v->frequencies); e.vec(v->power); e.d(v->duration); e.u(v->de_index); e.u(v->az_index);
            e.d(v->source_de); e.d(v->source_az); e.d(v->receiver_de); e.d(v->receiver_az);
            for (int k : {v->source_surface, v->source_bottom, v->source_caustic, v->source_upper, v->source_lower, v->receiver_surface, v->receiver_bottom,
                          v->receiver_caustic, v->receiver_upper, v->receiver_lower}) e.u(uint64_t(k));
            each.push_back(e.h);
        }
        std::sort(each.begin(), each.end());
        g.u(each.size()); for (auto h : each) g.u(h);
    }
    return g.h;
}
inline uint64_t dig(const rvbts_collection& c) {
    Digest g; g.pos(c.source_pos()); g.pos(c.receiver_pos()); g.seq(*c.travel_times());
    const auto& m = c.time_series();
    g.u(m.size1()); g.u(m.size2());
    for (size_t i = 0; i < m.size1(); ++i) for (size_t j = 0; j < m.size2(); ++j) g.d(m(i, j));
    return g.h;
}
inline size_t num_biverbs(const biverb_collection& c) { size_t n = 0; for (size_t i = 0; i < c.num_interfaces(); ++i) n += c.biverbs(i).size(); return n; }
inline size_t num_verbs(const eigenverb_collection& c) { size_t n = 0; for (size_t i = 0; i < c.num_interfaces(); ++i) n += c.size(i); return n; }

// ---- the environment ---------------------------------------------------
inline ocean_model::csptr make_ocean(double depth = 200.0, double c0 = 1500.0, double scatter = -30.0, int layers = 0, profile_model::csptr with = nullptr) {
    boundary_model::csptr surface(new boundary_flat(0.0, reflect_loss_model::csptr(new reflect_loss_constant(0.0, M_PI)), scattering_model::csptr(new scattering_constant(scatter))));
    boundary_model::csptr bottom(new boundary_flat(-depth, reflect_loss_model::csptr(new reflect_loss_constant(3.0)), scattering_model::csptr(new scattering_constant(scatter + 3.0))));
    profile_model::csptr profile = with ? with : profile_model::csptr(new profile_linear(c0, attenuation_model::csptr(new attenuation_constant(0.0))));
    std::vector<volume_model::csptr> volume;
    for (int i = 0; i < layers; ++i) volume.push_back(volume_model::csptr(new volume_flat(60.0 + 60.0 * i, 10.0, scatter - 10.0 + 3.0 * i)));
    return ocean_model::csptr(new ocean_model(surface, bottom, profile, &volume));
}
inline seq_vector::csptr freqs(int kind = 0) {
    return kind ? seq_vector::csptr(new seq_linear(900.0, 100.0, 1000.0)) : seq_vector::csptr(new seq_linear(950.0, 100.0, 951.0));
}
struct Fan {
    seq_vector::csptr de{new seq_linear(-60.0, 30.0, 60.0)}, az{new seq_linear(0.0, 90.0, 360.0)};
    double step = 0.1, tmax = 0.4;
};

// ---- sequential recomputation ------------------------------------------
struct Wave { std::shared_ptr<eigenray_collection> rays; std::shared_ptr<eigenverb_collection> verbs; };
inline Wave recompute_wave(const ocean_model::csptr& ocean, const sensor_model& s, const eigenray_collection& like, bool reverb) {
    wposition tpos(like.size1(), like.size2());
    matrix<uint64_t> ids(like.size1(), like.size2());
    for (size_t i = 0; i < like.size1(); ++i) for (size_t j = 0; j < like.size2(); ++j) {
        auto p = like.position(i, j);
        tpos.rho(i, j, p.rho()); tpos.theta(i, j, p.theta()); tpos.phi(i, j, p.phi());
        ids(i, j) = like.targetID(i, j);
    }
    wave_queue wave(ocean, like.frequencies(), like.source_position(), s.de_fan(), s.az_fan(), s.time_step(), &tpos);
    wave.intensity_threshold(s.intensity_threshold());
    wave.max_bottom(s.max_bottom());
    wave.max_surface(s.max_surface());
    Wave w;
    w.rays = std::make_shared<eigenray_collection>(like.frequencies(), like.source_position(), tpos, like.sourceID(), ids);
    w.verbs = std::make_shared<eigenverb_collection>(ocean->num_volume());
    if (like.size1() > 0) wave.add_eigenray_listener(w.rays.get());
    if (reverb) wave.add_eigenverb_listener(w.verbs.get());
    while (wave.time() < s.time_maximum()) wave.step();
    w.rays->sum_eigenrays();
    return w;
}
inline std::shared_ptr<biverb_collection> recompute_biverbs(const ocean_model::csptr& ocean, const eigenverb_collection& src, const eigenverb_collection& rcv) {
    auto c = std::make_shared<biverb_collection>(ocean->num_volume());
    // interfaces that all of them know
    for (size_t i = 0; i < rcv.num_interfaces() && i < src.num_interfaces() && i < c->num_interfaces(); ++i)
        for (const auto& r : rcv.eigenverbs(i)) {
            boost::numeric::ublas::vector<double> scatter(r->frequencies->size(), 0.0);
            for (const auto& s : src.find_eigenverbs(r, i)) {
                Digest a, b; a.seq(*s->frequencies); b.seq(*r->frequencies);
                if (a.h != b.h) continue;
                ocean->scattering(i, r->position, r->frequencies, s->grazing, r->grazing, s->direction, r->direction, &scatter);
                c->add_biverb(s, r, scatter, i);
            }
        }
    return c;
}
inline double schedule_step(const transmit_list& l) {
    double t = 0.0;
    for (auto& x : l) t = t == 0.0 ? x->duration : std::min(t, x->duration);
    return std::max(0.1, t / 2.0);
}
inline std::shared_ptr<rvbts_collection> recompute_rvbts(const rvbts_collection& like, const biverb_collection& bi, const transmit_list& schedule, const orientation* host) {
    seq_vector::csptr times(new seq_linear(like.receiver()->time_minimum(), schedule_step(schedule), like.receiver()->time_maximum()));
    auto c = std::make_shared<rvbts_collection>(like.source(), like.source_pos(), like.source_orient(), like.source_speed(), like.receiver(), like.receiver_pos(),
                                                like.receiver_orient(), like.receiver_speed(), times);
    std::vector<bvector> steer;
    for (auto& t : schedule) {
        bvector o(t->orderedDE, t->orderedAZ);
        double v[3] = {o.front(), o.right(), o.up()};
        if (host) {
            boost::numeric::ublas::matrix<double> H = host->rotation(), S = like.source_orient().rotation();
            double x[3] = {0, 0, 0}, y[3] = {0, 0, 0};
            for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < 3; ++k) x[i] += H(i, k) * v[k];
            for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < 3; ++k) y[i] += S(k, i) * x[k];
            for (int i = 0; i < 3; ++i) v[i] = y[i];
        }
        steer.push_back(bvector(v[0], v[1], v[2]));
    }
    for (size_t i = 0; i < bi.num_interfaces(); ++i)
        for (auto& verb : bi.biverbs(i)) {
            size_t n = 0;
            for (auto& t : schedule) c->add_biverb(verb, t, steer[n++]);
        }
    return c;
}
inline bool close_series(const rvbts_collection& a, const rvbts_collection& b) {
    const auto &x = a.time_series(), &y = b.time_series();
    if (x.size1() != y.size1() || x.size2() != y.size2()) return false;
    const seq_vector &s = *a.travel_times(), &t = *b.travel_times();
    if (s.size() != t.size()) return false;
    for (size_t i = 0; i < s.size(); ++i) if (s[i] != t[i]) return false;
    double big = 0;
    for (size_t i = 0; i < x.size1(); ++i) for (size_t j = 0; j < x.size2(); ++j) big = std::max(big, std::fabs(y(i, j)));
    for (size_t i = 0; i < x.size1(); ++i) for (size_t j = 0; j < x.size2(); ++j) {
        bool nx = x(i, j) != x(i, j), ny = y(i, j) != y(i, j);
        if (nx != ny || (!nx && !(std::fabs(x(i, j) - y(i, j)) <= 1e-9 * big + 1e-300))) return false;
    }
    Digest p, q; p.seq(*a.travel_times()); q.seq(*b.travel_times());
    return p.h == q.h;
}
inline bool same_pos(const wposition1& a, const wposition1& b) { return a.rho() == b.rho() && a.theta() == b.theta() && a.phi() == b.phi(); }
inline bool same_orient(const orientation& a, const orientation& b) {
    boost::numeric::ublas::matrix<double> x = a.rotation(), y = b.rotation();
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) if (x(i, j) != y(i, j)) return false;
    return true;
}
// a pulse schedule that differs for every index
inline transmit_list make_schedule(int k) {
    transmit_list l;
    int n = 1 + k % 2;
    for (int i = 0; i < n; ++i)
        l.push_back(transmit_model::csptr(new transmit_cw("CW", 0.15 * (1 + (k + 2 * i) % 3), 950.0, 0.05 * i + 0.01 * k, 200.0 + k, window::type::BOXCAR, 0.0, 10.0 * k + 20.0 * i, 3.0 * k, 0)));
    return l;
}
}  // namespace pl
