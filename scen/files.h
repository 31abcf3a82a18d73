// Shared parts of the file scenarios: random products, and reading files back
// through the plain netCDF library.
#pragma once
#include "pipeline.h"
#include <netcdf.h>
#include <netcdf>
#include <fcntl.h>
#include <unistd.h>

namespace fl {
using namespace pl;

// With "unbuffered" planned, the file library writes and reads data at once
// instead of keeping small files in memory until they are closed.
inline void buffering(const sim::Plan& p) {
    static size_t size, slots; static float prefer; static bool first = nc_get_chunk_cache(&size, &slots, &prefer) == NC_NOERR;
    bool direct = p.cfg("unbuffered", 0) != 0;
    (void)first;
    if (direct) nc_set_chunk_cache(0, 1, 1.0f); else nc_set_chunk_cache(size, slots, prefer);
    if (direct) sim::probe("unbuffered files");
}

// a file read through the C interface, independently of the code under test
struct Nc {
    int id = -1; bool ok = false; std::string why;
    explicit Nc(const std::string& name) {
        int rc = nc_open(name.c_str(), NC_NOWRITE, &id);
        ok = rc == NC_NOERR;
        if (!ok) why = nc_strerror(rc);
    }
    ~Nc() { if (ok) nc_close(id); }
    int64_t dim(const char* n) const {
        int d; size_t len;
        if (nc_inq_dimid(id, n, &d) != NC_NOERR || nc_inq_dimlen(id, d, &len) != NC_NOERR) return -1;
        return int64_t(len);
    }
    std::vector<size_t> shape(const char* n) const {
        int v, nd, dims[NC_MAX_VAR_DIMS];
        std::vector<size_t> s;
        if (nc_inq_varid(id, n, &v) != NC_NOERR || nc_inq_var(id, v, nullptr, nullptr, &nd, dims, nullptr) != NC_NOERR) { s.push_back(size_t(-1)); return s; }
        for (int i = 0; i < nd; ++i) { size_t l = 0; nc_inq_dimlen(id, dims[i], &l); s.push_back(l); }
        return s;
    }
    bool has(const char* n) const { int v; return nc_inq_varid(id, n, &v) == NC_NOERR; }
    int num_vars() const { int n = -1; nc_inq_nvars(id, &n); return n; }
    std::vector<double> get(const char* n) const {
        int v; size_t total = 1;
        for (auto l : shape(n)) { if (l == size_t(-1)) sim::violate("missing-variable", "the file has no readable variable %s", n); total *= l; }
        std::vector<double> out(total);
        nc_inq_varid(id, n, &v);
        if (total && nc_get_var_double(id, v, out.data()) != NC_NOERR) sim::violate("unreadable", "variable %s cannot be read back", n);
        return out;
    }
    std::string text(const char* n) const {
        size_t len = 0;
        if (nc_inq_attlen(id, NC_GLOBAL, n, &len) != NC_NOERR) return "";
        std::string s(len, 0);
        if (nc_get_att_text(id, NC_GLOBAL, n, &s[0]) != NC_NOERR) {
            char* p = nullptr;
            if (nc_get_att_string(id, NC_GLOBAL, n, &p) == NC_NOERR && p) { s = p; nc_free_string(1, &p); }
        }
        return s;
    }
    int64_t number(const char* n, int64_t dflt) const {
        int v = 0;
        return nc_get_att_int(id, NC_GLOBAL, n, &v) == NC_NOERR ? v : dflt;
    }
};
inline bool near(double a, double b) {
    if (a != a || b != b) return a != a && b != b;
    return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b));
}
inline void want(double got, double expect, const char* what, size_t i, size_t j = 0) {
    sim::check(near(got, expect), "wrong-data", "%s[%zu,%zu] is %.17g in the file, %.17g in the object", what, i, j, got, expect);
}
inline double db(double p) { return 10.0 * std::log10(std::max(p, 1e-30)); }
inline double deg(double r) { return r * 180.0 / M_PI; }

// ---- random products ----------------------------------------------------
inline seq_vector::csptr any_freqs(sim::Rng& r, int n) {
    if (n < 1) n = 1;
    if (r.chance(0.5)) return seq_vector::csptr(new seq_linear(900.0 + r.below(100), 10.0 + r.below(20), size_t(n)));
    std::vector<double> f; double x = 500.0;
    for (int i = 0; i < n; ++i) f.push_back(x += 1.0 + 100.0 * r.unit());
    return seq_vector::csptr(new seq_data(f));
}
inline uint64_t any_id(sim::Rng& r) { return r.chance(0.2) ? (1ull << 52) + r.below(1000000) : r.chance(0.2) ? (1ull << 32) - 3 + r.below(6) : 1 + r.below(1000000); }
inline int any_count(sim::Rng& r) { return r.chance(0.05) ? 32766 + int(r.below(2)) : r.chance(0.05) ? 125 + int(r.below(6)) : int(r.below(9)); }
inline size_t any_index(sim::Rng& r) { return r.chance(0.05) ? 32766 + r.below(2) : r.below(300); }
inline wposition1 any_pos(sim::Rng& r) { return wposition1(-40.0 + 80.0 * r.unit(), -170.0 + 340.0 * r.unit(), -4000.0 * r.unit()); }
inline eigenray_model::csptr any_ray(sim::Rng& r, const seq_vector::csptr& f) {
    auto e = std::make_shared<eigenray_model>();
    e->travel_time = 0.5 + 10.0 * r.unit(); e->frequencies = f;
    e->intensity.resize(f->size()); e->phase.resize(f->size());
    for (size_t i = 0; i < f->size(); ++i) { e->intensity[i] = 40.0 + 60.0 * r.unit(); e->phase[i] = 6.0 * r.unit() - 3.0; }
    e->source_de = 180.0 * r.unit() - 90.0; e->source_az = 360.0 * r.unit(); e->target_de = 180.0 * r.unit() - 90.0; e->target_az = 360.0 * r.unit();
    e->surface = any_count(r); e->bottom = any_count(r); e->caustic = any_count(r); e->upper = any_count(r); e->lower = any_count(r);
    return e;
}
// how many records a part of a product has: seldom very many
inline int any_number(sim::Rng& r, int most) { return r.chance(0.008) ? r.range(most, 700) : r.range(1, most); }
inline std::shared_ptr<eigenray_collection> any_rays(sim::Rng& r, int n1, int n2, int nf, int most) {
    auto f = any_freqs(r, nf);
    wposition tpos(static_cast<size_t>(n1), static_cast<size_t>(n2));
    matrix<uint64_t> ids(static_cast<size_t>(n1), static_cast<size_t>(n2));
    for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) {
        auto p = any_pos(r);
        tpos.rho(size_t(i), size_t(j), p.rho()); tpos.theta(size_t(i), size_t(j), p.theta()); tpos.phi(size_t(i), size_t(j), p.phi());
        ids(size_t(i), size_t(j)) = any_id(r);
    }
    auto c = std::make_shared<eigenray_collection>(f, any_pos(r), tpos, any_id(r), ids, r.chance(0.5));
    for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j)
        { eigenray_list l; for (int k = r.chance(0.2) ? 0 : any_number(r, most); k > 0; --k) { l.push_back(any_ray(r, f)); c->add_eigenray(size_t(i), size_t(j), l.back()); }
          sim::check(c->eigenrays(size_t(i), size_t(j)) == l, "collection", "target %d,%d does not list the eigenrays that were added to it", i, j); }
    if (r.chance(0.8)) c->sum_eigenrays();
    return c;
}
inline eigenverb_model::csptr any_verb(sim::Rng& r, const seq_vector::csptr& f, double key) {
    auto v = std::make_shared<eigenverb_model>();
    v->travel_time = key + 0.5 * r.unit(); v->frequencies = f;
    v->power.resize(f->size());
    for (size_t i = 0; i < f->size(); ++i) v->power[i] = r.chance(0.05) ? 0.0 : std::pow(10.0, -12.0 * r.unit());
    v->length = 10.0 + 500.0 * r.unit(); v->width = 10.0 + 500.0 * r.unit(); v->position = any_pos(r);
    v->direction = 6.0 * r.unit(); v->grazing = 1.5 * r.unit(); v->sound_speed = 1450.0 + 100.0 * r.unit();
    v->de_index = any_index(r); v->az_index = any_index(r); v->source_de = 3.0 * r.unit() - 1.5; v->source_az = 6.0 * r.unit();
    v->surface = any_count(r); v->bottom = any_count(r); v->caustic = any_count(r); v->upper = any_count(r); v->lower = any_count(r);
    return v;
}
// travel times differ by more than 0.5 s: records are matched by them
inline std::shared_ptr<eigenverb_collection> any_verbs(sim::Rng& r, int volumes, int nf, int most) {
    auto f = any_freqs(r, nf);
    auto c = std::make_shared<eigenverb_collection>(size_t(volumes));
    for (size_t i = 0; i < c->num_interfaces(); ++i) {
        int n = r.chance(0.25) ? 0 : any_number(r, most);
        eigenverb_list l;
        for (int k = 0; k < n; ++k) { l.push_back(any_verb(r, f, 1.0 + k)); c->add_eigenverb(l.back(), i); }
        auto got = c->eigenverbs(i);
        bool all = got.size() == l.size();
        for (auto& v : l) all = all && std::find(got.begin(), got.end(), v) != got.end();
        sim::check(all, "collection", "interface %zu does not list the eigenverbs that were added to it", i);
    }
    return c;
}
inline std::shared_ptr<biverb_collection> any_biverbs(sim::Rng& r, int volumes, int nf, int most) {
    auto f = any_freqs(r, nf);
    auto c = std::make_shared<biverb_collection>(size_t(volumes));
    for (size_t i = 0; i < c->num_interfaces(); ++i) {
        int n = r.chance(0.25) ? 0 : any_number(r, most);
        boost::numeric::ublas::vector<double> scatter(f->size(), 0.1);
        for (int k = 0; k < n; ++k) {
            auto a = any_verb(r, f, 1.0 + k), b = any_verb(r, f, 1.0 + k);
            wposition1 p = any_pos(r);
            std::const_pointer_cast<eigenverb_model>(a)->position = p; std::const_pointer_cast<eigenverb_model>(b)->position = p;
            for (size_t q = 0; q < f->size(); ++q) { std::const_pointer_cast<eigenverb_model>(a)->power[q] = 1.0 + r.unit(); std::const_pointer_cast<eigenverb_model>(b)->power[q] = 1.0 + r.unit(); }
            c->add_biverb(a, b, scatter, i);
        }
        sim::check(c->biverbs(i).size() == size_t(n), "collection", "interface %zu lists %zu of the %d bistatic eigenverbs that were added to it", i, c->biverbs(i).size(), n);
    }
    return c;
}
}  // namespace fl
