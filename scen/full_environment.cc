// Environment files: loaded exactly or not at all (C19).
#include "files.h"
#include <usml/netcdf/netcdf_bathy.h>
#include <usml/netcdf/netcdf_coards.h>
#include <usml/netcdf/netcdf_profile.h>
#include <usml/netcdf/netcdf_woa.h>
#include <usml/ocean/ascii_arc_bathy.h>
#include <usml/ocean/ascii_profile.h>
#include <usml/ocean/boundary_grid.h>
#include <usml/ocean/data_grid_mackenzie.h>
#include <usml/ocean/ocean.h>
#include <usml/ocean/ocean_utils.h>
#include <usml/ocean/profile_grid.h>
#include <usml/ocean/scattering_chapman.h>
#include <sys/stat.h>
#include <usml/ocean/reflect_loss_netcdf.h>
#include <usml/ocean/reflect_loss_rayleigh.h>
#include <usml/types/gen_grid.h>
using namespace fl;
using namespace usml::netcdf;

namespace {
const double R = wposition::earth_radius;
enum Way { HEALTHY, FAULTY, TRUNCATED, LAYOUT, GARBAGE, MISSING, WAYS };
const char* kinds[] = {"ARC grid", "profile table", "netCDF bathymetry", "netCDF profile", "World Ocean Atlas", "COARDS grid", "bottom provinces"};
thread_local const char* kind = "";
const char* way_name(int w) { const char* n[] = {"a healthy file", "a failing disk", "a truncated file", "a file of another layout", "garbage", "a missing file"}; return n[w]; }

void put_text(const std::string& name, const std::string& text) {
    FILE* f = fopen(name.c_str(), "w");
    if (!f) return;
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}
void cut(const std::string& name, sim::Rng& r) {
    FILE* f = fopen(name.c_str(), "r");
    if (!f) return;
    fseek(f, 0, SEEK_END); long l = ftell(f); fclose(f);
    if (truncate(name.c_str(), long(r.below(uint32_t(l)))) != 0) return;
}
void garbage(const std::string& to, sim::Rng& r) {
    std::string s;
    for (int n = int(r.below(3000)); n > 0; --n) s += char(r.below(4) ? 'a' + r.below(26) : 128 + r.below(100));
    put_text(to, s);
}
void close_to(double got, double expect, double tol, const char* what, size_t i = 0, size_t j = 0) {
    sim::check(std::fabs(got - expect) <= tol, "wrong-data", "%s: %s[%zu,%zu] is %.17g, the file says %.17g", kind, what, i, j, got, expect);
}
void same(double got, double expect, const char* what, size_t i = 0, size_t j = 0) {
    if (expect != expect) { sim::check(got != got, "wrong-data", "%s: %s[%zu,%zu] is %.17g, the file says that it is missing", kind, what, i, j, got); return; }
    close_to(got, expect, 1e-12 * std::max(1.0, std::fabs(expect)), what, i, j);
}

// One environment file and what it says.
struct Source {
    virtual ~Source() {}
    virtual void write(const std::string& name, sim::Rng& r) = 0;         // a good file
    virtual bool spoil(const std::string& name, sim::Rng& r) = 0;         // another layout; false if there is none
    virtual bool truncates() const { return true; }
    virtual std::shared_ptr<void> load(const std::string& name) = 0;
    virtual void verify(const void* loaded) = 0;
    bool ascii = false, classic = false;
};

// ---- ASCII --------------------------------------------------------------
std::string num(sim::Rng& r, double v, int digits) { char b[60]; r.chance(0.1) ? snprintf(b, sizeof b, "%.*e", digits + 6, v) : snprintf(b, sizeof b, "%.*f", digits, v); return b; }
std::string gap(sim::Rng& r) { const char* g[] = {" ", "  ", "\t", " \t ", "     "}; return g[r.below(5)]; }

struct Arc : Source {
    size_t rows, cols; double x, y, cell; std::vector<double> v; std::vector<std::string> words;
    explicit Arc(sim::Rng& r) {
        ascii = true;
        rows = size_t(r.range(1, r.chance(0.2) ? 60 : 6)); cols = size_t(r.range(1, r.chance(0.2) ? 60 : 6));
        const char* labels[6] = {"ncols", "nrows", "xllcorner", "yllcorner", "cellsize", "nodata_value"};
        auto word = [&](const char* l, const std::string& w) { words.push_back(r.chance(0.05) ? std::string(l) + std::string(100, '_') : l); words.push_back(w); return strtod(w.c_str(), nullptr); };
        word(labels[0], std::to_string(cols)); word(labels[1], std::to_string(rows));
        x = word(labels[2], num(r, 300.0 * r.unit() - 150.0, r.range(1, 8))); y = word(labels[3], num(r, 60.0 * r.unit() - 40.0, r.range(1, 8)));
        cell = word(labels[4], num(r, 0.001 + 0.2 * r.unit(), r.range(4, 9))); word(labels[5], "999999");
        for (size_t i = 0; i < rows * cols; ++i) { words.push_back(num(r, -6000.0 * r.unit(), r.range(0, 4))); v.push_back(strtod(words.back().c_str(), nullptr)); }
    }
    std::string join(sim::Rng& r) const {
        std::string s;
        for (size_t i = 0; i < words.size(); ++i) {
            s += words[i];
            bool eol = i < 12 ? i % 2 == 1 : (i - 12) % cols == cols - 1;
            s += eol ? (r.chance(0.2) ? " \r\n" : "\n") : gap(r);
        }
        return s;
    }
    void write(const std::string& name, sim::Rng& r) override { put_text(name, join(r)); }
    bool spoil(const std::string& name, sim::Rng& r) override {
        auto keep = words;
        size_t k = 2 * size_t(r.below(6)) + 1;
        if (words.size() > 13 && r.chance(0.6)) k = 12 + size_t(r.below(uint32_t(words.size() - 13)));
        if (r.chance(0.5)) words[k].insert(words[k].size() / 2, "x"); else words.erase(words.begin() + long(k));
        if (k == 11 && words.size() == keep.size()) words[k] = "none";
        put_text(name, join(r));
        words = keep;
        return true;
    }
    std::shared_ptr<void> load(const std::string& n) override { return std::make_shared<ascii_arc_bathy>(n.c_str()); }
    void verify(const void* p) override {
        auto& g = *static_cast<const ascii_arc_bathy*>(p);
        sim::check(g.axis(0).size() == rows && g.axis(1).size() == cols, "wrong-shape", "grid of %zu x %zu, the file has %zu x %zu", g.axis(0).size(), g.axis(1).size(), rows, cols);
        for (size_t i = 0; i < rows; ++i) close_to(to_latitude(g.axis(0)(i)), y + cell * double(rows - 1 - i), 1e-9, "latitude", i);
        for (size_t j = 0; j < cols; ++j) close_to(deg(g.axis(1)(j)), x + cell * double(j), 1e-9, "longitude", j);
        for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) {
            size_t k[2] = {i, j};
            same(g.data(k), R + v[i * cols + j], "depth", i, j);
        }
        // at the grid points interpolation gives the data
        size_t i = rows / 2, j = cols / 2;
        double at[2] = {g.axis(0)(i), g.axis(1)(j)};
        close_to(g.interpolate(at), R + v[i * cols + j], 1e-4, "interpolated depth", i, j);
    }
};
struct Csv : Source {
    std::vector<double> depth, speed; std::vector<std::string> lines;
    explicit Csv(sim::Rng& r) {
        ascii = true;
        int n = r.range(1, r.chance(0.2) ? 200 : 8); double d = r.chance(0.5) ? 0.0 : 10.0 * r.unit();
        for (int i = 0; i < n; ++i) {
            std::string a = num(r, d, 3), b = num(r, 1450.0 + 100.0 * r.unit(), r.range(0, 5));
            const char* sep[] = {",", " ", ", ", " , ", "\t", ",  "};
            lines.push_back((r.chance(0.2) ? " " : "") + a + sep[r.below(6)] + b);
            depth.push_back(strtod(a.c_str(), nullptr)); speed.push_back(strtod(b.c_str(), nullptr));
            d += 1.0 + 100.0 * r.unit();
        }
    }
    std::string join(sim::Rng& r) const {
        std::string s; bool crlf = r.chance(0.2), last = r.chance(0.7);
        for (size_t i = 0; i < lines.size(); ++i) s += lines[i] + (i + 1 == lines.size() && !last ? "" : crlf ? "\r\n" : "\n");
        if (last && r.chance(0.3)) s += "\n";
        return s;
    }
    bool truncates() const override { return false; }      // nothing in the file says how long it is
    void write(const std::string& name, sim::Rng& r) override { put_text(name, join(r)); }
    bool spoil(const std::string& name, sim::Rng& r) override {
        auto keep = lines;
        size_t k = r.below(uint32_t(lines.size()));
        if (r.chance(0.4)) lines[k] = "depth speed";
        else if (r.chance(0.5)) lines[k] = "100.0";
        else if (lines.size() > 2) std::swap(lines[0], lines[1]);
        else lines.clear();
        put_text(name, lines.empty() ? "" : join(r));
        lines = keep;
        return true;
    }
    std::shared_ptr<void> load(const std::string& n) override { return std::make_shared<ascii_profile>(n.c_str()); }
    void verify(const void* p) override {
        auto& g = *static_cast<const ascii_profile*>(p);
        sim::check(g.axis(0).size() == depth.size(), "wrong-shape", "profile of %zu points, the file has %zu", g.axis(0).size(), depth.size());
        for (size_t i = 0; i < depth.size(); ++i) {
            close_to(R - g.axis(0)(i), depth[i], 1e-6, "depth", i);
            same(g.data(&i), speed[i], "speed", i);
            double at[1] = {g.axis(0)(i)};
            close_to(g.interpolate(at), speed[i], 1e-4, "interpolated speed", i);
        }
    }
};

// ---- netCDF -------------------------------------------------------------
// a file that is written through the C interface; spoil() edits this description
struct Dim { std::string name; size_t len; };
struct Var { std::string name; nc_type type; std::vector<size_t> dims; std::vector<double> data; std::vector<std::pair<std::string, double>> atts; };
struct File {
    std::vector<Dim> dims; std::vector<Var> vars;
    size_t dim(const std::string& n, size_t len) { dims.push_back({n, len}); return dims.size() - 1; }
    Var& var(const std::string& n, nc_type t, std::vector<size_t> d) {
        vars.push_back({n, t, d, {}, {}});
        size_t total = 1; for (auto i : d) total *= dims[i].len;
        vars.back().data.resize(total);
        return vars.back();
    }
    size_t find(const std::string& n) const { for (size_t i = 0; i < vars.size(); ++i) if (vars[i].name == n) return i; return vars.size(); }
    void save(const std::string& name, bool classic) const {
        int id; std::vector<int> di(dims.size()), vi(vars.size());
        auto ok = [](int rc) { if (rc != NC_NOERR) { fprintf(stderr, "harness: %s\n", nc_strerror(rc)); abort(); } };
        ok(nc_create(name.c_str(), (classic ? 0 : NC_NETCDF4) | NC_CLOBBER, &id));
        for (size_t i = 0; i < dims.size(); ++i) ok(nc_def_dim(id, dims[i].name.c_str(), dims[i].len, &di[i]));
        for (size_t i = 0; i < vars.size(); ++i) {
            std::vector<int> d; for (auto k : vars[i].dims) d.push_back(di[k]);
            ok(nc_def_var(id, vars[i].name.c_str(), vars[i].type, int(d.size()), d.data(), &vi[i]));
            for (auto& a : vars[i].atts) ok(nc_put_att_double(id, vi[i], a.first.c_str(), a.first == "_FillValue" ? vars[i].type : NC_DOUBLE, 1, &a.second));
        }
        ok(nc_enddef(id));
        for (size_t i = 0; i < vars.size(); ++i) ok(nc_put_var_double(id, vi[i], vars[i].data.data()));
        ok(nc_close(id));
    }
};
double f32(double v) { return double(float(v)); }

struct NcSource : Source {
    File file;
    std::vector<std::string> needed;            // variables without which the file makes no sense
    explicit NcSource(sim::Rng& r) { classic = r.chance(0.25); }
    bool truncates() const override { return !classic; }   // the classic library reads zeros behind the end of a file
    void write(const std::string& name, sim::Rng&) override { file.save(name, classic); }
    bool spoil(const std::string& name, sim::Rng& r) override {
        File g = file;
        if (!edit(g, r)) {
            size_t v = g.find(needed[r.below(uint32_t(needed.size()))]);
            if (r.chance(0.5)) g.vars.erase(g.vars.begin() + long(v)); else g.vars[v].name += "_x";
        }
        g.save(name, classic);
        return true;
    }
    virtual bool edit(File&, sim::Rng&) { return false; }   // another kind of damage
};

// a region of a file of latitudes and longitudes
struct Region {
    size_t nlat, nlng; double lat0, dlat, lng0, dlng; bool global, duplicate = false;
    double south, north, west, east;
    explicit Region(sim::Rng& r) {
        global = r.chance(0.6);
        if (global) {
            double cells[] = {5.0, 10.0, 15.0, 30.0, 2.5};
            dlng = cells[r.below(5)];
            // values have to start below 1 (or -179) and end above 359 (or 179) degrees
            bool centred = dlng <= 1.5;
            dlat = dlng;
            nlng = size_t(360.0 / dlng);
            duplicate = r.chance(0.5);
            if (!duplicate && !centred) { dlng = 1.0; nlng = 360; dlat = 10.0; }
            lng0 = r.chance(0.5) ? 0.0 : -180.0;
            if (duplicate) ++nlng;
            else if (r.chance(0.5)) lng0 += 0.5;
            if (!duplicate && lng0 <= -179.5 && lng0 > -180.0) { }
            lat0 = -90.0; nlat = size_t(180.0 / dlat) + 1;
        } else {
            bool large = r.chance(0.03);
            nlat = size_t(r.range(2, large ? 120 : 12)); nlng = size_t(r.range(2, large ? 120 : 12));
            dlat = 0.05 * r.range(1, 20); dlng = 0.05 * r.range(1, 20);
            lat0 = -60.0 + 100.0 * r.unit();
            lng0 = r.chance(0.4) ? 190.0 + 100.0 * r.unit() : r.chance(0.5) ? -170.0 + 140.0 * r.unit() : 5.0 + 150.0 * r.unit();
        }
        double top = lat0 + dlat * double(nlat - 1), right = lng0 + dlng * double(nlng - 1);
        auto pick = [&r](double a, double b, double cell, double& lo, double& hi) {
            // on grid points, between them or beyond the edges
            lo = a + (b - a) * r.unit(); hi = lo + (b - lo) * r.unit();
            if (r.chance(0.3)) { lo = a + cell * std::floor((lo - a) / cell); hi = a + cell * std::floor((hi - a) / cell); }
        };
        pick(lat0, top, dlat, south, north);
        if (r.chance(0.2)) { south = lat0 - 3.0; if (lat0 - 3.0 < -90.0) south = -90.0; }
        if (r.chance(0.2)) { north = top + 3.0; if (north > 90.0) north = 90.0; }
        pick(lng0, right, dlng, west, east);
        if (global) {
            if (r.chance(0.5)) {      // across the ends of the file
                double a = r.below(60), b = 1.0 + r.below(60);
                if (lng0 < -1.0) { west = 179.0 - a; east = 179.0 + b; } else { west = -1.0 - a; east = -1.0 + b; }
            } else if (lng0 < -1.0 && r.chance(0.3)) { west = 181.0 + r.below(60); east = west + r.below(60); }
            else if (lng0 > -1.0 && r.chance(0.3)) { west = -170.0 + r.below(60); east = west + r.below(60); }
        } else if (lng0 > 180.0 && r.chance(0.5)) { west -= 360.0; east -= 360.0; }
        else if (lng0 < 0.0 && right < 0.0 && r.chance(0.5)) { west += 360.0; east += 360.0; }
        else if (r.chance(0.2)) { west = lng0 - 2.0; if (lng0 > 0.0 && west < 0.0) west = 0.0; }
    }
    // index in the file of each point of the loaded axes
    std::vector<size_t> rows, cols;
    void locate(const seq_vector& lat, const seq_vector& lng) {
        rows.clear(); cols.clear();
        double eps = 1e-6;
        for (size_t i = 0; i < lat.size(); ++i) {
            double l = to_latitude(lat(i)), k = (l - lat0) / dlat;
            sim::check(std::fabs(k - std::round(k)) < 1e-4 && k > -0.5 && k < double(nlat) - 0.5, "wrong-axis", "latitude %.9g is not in the file", l);
            rows.push_back(size_t(std::llround(k)));
            sim::check(i == 0 || rows[i] == rows[i - 1] + 1, "wrong-axis", "latitude %.9g follows another one", l);
        }
        sim::check(!rows.empty() && (rows[0] == 0 || lat0 + dlat * double(rows[0]) <= south + eps + 1e-5 * dlat), "wrong-axis", "the southern part of the region is missing");
        sim::check(rows.back() == nlat - 1 || lat0 + dlat * double(rows.back()) >= north - 0.5 * dlat - eps, "wrong-axis", "the northern part of the region is missing");
        sim::check(lat0 + dlat * double(rows[0]) > south - dlat * 1.001 - eps && lat0 + dlat * double(rows.back()) <= north + dlat * 0.501 + eps, "wrong-axis", "latitudes beyond the region were loaded");
        size_t period = duplicate ? nlng - 1 : nlng;
        double first = deg(lng(0)), last = deg(lng(lng.size() - 1));
        for (size_t j = 0; j < lng.size(); ++j) {
            double l = deg(lng(j)), k = (l - lng0) / dlng;
            if (global) { double turns = 360.0 / dlng; k = std::fmod(std::fmod(k + 1e-4, turns) + turns, turns) - 1e-4; }
            else k -= 360.0 / dlng * std::round((l - lng0 - dlng * double(nlng) / 2) / 360.0);
            sim::check(std::fabs(k - std::round(k)) < 1e-3 && k > -0.5 && k < double(nlng) - 0.5, "wrong-axis", "longitude %.9g is not in the file", l);
            size_t c = size_t(std::llround(k));
            cols.push_back(global ? c % period : c);
            sim::check(j == 0 || std::fabs(l - deg(lng(j - 1)) - dlng) < 1e-5, "wrong-axis", "longitude %.9g follows %.9g", l, deg(lng(j - 1)));
        }
        bool at_left = !global && cols[0] == 0, at_right = !global && cols.back() == nlng - 1;
        sim::check(at_left || first <= west + eps + 1e-5 * dlng, "wrong-axis", "the western part of the region is missing: %.9g instead of %.9g", first, west);
        sim::check(at_right || last >= east - 0.5 * dlng - eps, "wrong-axis", "the eastern part of the region is missing: %.9g instead of %.9g", last, east);
        sim::check(first > west - dlng * 1.001 - eps && last <= east + dlng * 0.501 + eps, "wrong-axis", "longitudes beyond the region were loaded");
    }
};
struct Bathy : NcSource {
    Region g; double radius; std::string depth = "z";
    explicit Bathy(sim::Rng& r) : NcSource(r), g(r) {
        radius = r.chance(0.3) ? 0.0 : R;
        if (r.chance(0.3)) { size_t k = file.dim("aa", 3); file.var("aa", NC_DOUBLE, {k}); }        // something else in the file
        size_t la = file.dim(r.chance(0.5) ? "lat" : "y", g.nlat), ln = file.dim(r.chance(0.5) ? "lon" : "x", g.nlng);
        auto& v1 = file.var(file.dims[la].name, NC_DOUBLE, {la}); for (size_t i = 0; i < g.nlat; ++i) v1.data[i] = g.lat0 + g.dlat * double(i);
        auto& v2 = file.var(file.dims[ln].name, NC_DOUBLE, {ln}); for (size_t i = 0; i < g.nlng; ++i) v2.data[i] = g.lng0 + g.dlng * double(i);
        nc_type t = r.chance(0.4) ? NC_SHORT : r.chance(0.5) ? NC_FLOAT : NC_DOUBLE;
        auto& z = file.var(depth, t, {la, ln});
        for (size_t i = 0; i < g.nlat; ++i) for (size_t j = 0; j < g.nlng; ++j) {
            double d = g.duplicate && j == g.nlng - 1 ? z.data[i * g.nlng] : t == NC_SHORT ? std::floor(-6000.0 * r.unit()) : f32(-6000.0 * r.unit());
            z.data[i * g.nlng + j] = d;
        }
        needed = {depth, file.dims[la].name, file.dims[ln].name};
        needed[0] = file.dims[la].name;      // another name for the depths is accepted
    }
    bool edit(File& f, sim::Rng& r) override {
        if (r.chance(0.6)) return false;
        if (r.chance(0.5)) f.vars.erase(f.vars.begin() + long(f.find(depth)));
        else { auto& z = f.vars[f.find(depth)]; size_t n = f.dims[z.dims[1]].len; z.dims = {z.dims[1]}; z.data.resize(n); }
        return true;
    }
    std::shared_ptr<void> load(const std::string& n) override { return std::make_shared<netcdf_bathy>(n.c_str(), g.south, g.north, g.west, g.east, radius); }
    void verify(const void* p) override {
        auto& b = *static_cast<const netcdf_bathy*>(p);
        g.locate(b.axis(0), b.axis(1));
        auto& z = file.vars[file.find(depth)].data;
        for (size_t i = 0; i < g.rows.size(); ++i) for (size_t j = 0; j < g.cols.size(); ++j) {
            size_t k[2] = {i, j};
            same(b.data(k), radius + z[g.rows[i] * g.nlng + g.cols[j]], "depth", i, j);
        }
    }
};
// time, depth, latitude and longitude
struct Profile : NcSource {
    Region g; std::vector<double> times, depths, value; double date; bool named; size_t best = 0;
    static constexpr const char* dn[4] = {"time", "depth", "lat", "lon"};
    void axes(const std::vector<double>& d) {
        size_t id[4] = {file.dim(dn[0], times.size()), file.dim(dn[1], d.size()), file.dim(dn[2], g.nlat), file.dim(dn[3], g.nlng)};
        file.var(dn[0], NC_DOUBLE, {id[0]}).data = times; file.var(dn[1], NC_FLOAT, {id[1]}).data = d;
        auto& la = file.var(dn[2], NC_DOUBLE, {id[2]}); for (size_t i = 0; i < g.nlat; ++i) la.data[i] = g.lat0 + g.dlat * double(i);
        auto& ln = file.var(dn[3], NC_DOUBLE, {id[3]}); for (size_t i = 0; i < g.nlng; ++i) ln.data[i] = g.lng0 + g.dlng * double(i);
        needed = {"time", "depth", "lat", "lon"};
    }
    explicit Profile(sim::Rng& r) : NcSource(r), g(r) {
        double t = 100.0 * r.unit();
        for (int i = r.range(1, 4); i > 0; --i) times.push_back(t += 1.0 + 30.0 * r.unit());
        double d = 0.0;
        for (int i = r.range(1, 4); i > 0; --i) { depths.push_back(f32(d)); d += 5.0 + 100.0 * r.unit(); }
        date = times[r.below(uint32_t(times.size()))] + 40.0 * r.unit() - 20.0;
        if (g.nlat * g.nlng > 1500) { times.resize(1); if (depths.size() > 2) depths.resize(2); }
        for (size_t i = 0; i < times.size(); ++i) if (std::fabs(times[i] - date) < std::fabs(times[best] - date)) best = i;
        axes(depths);
        named = r.chance(0.5);
        std::vector<size_t> d4 = {0, 1, 2, 3};
        bool packed = r.chance(0.5), scale = r.chance(0.6), offset = r.chance(0.6), fill = r.chance(0.6);
        double s = scale ? 0.001 * r.range(1, 20) : 1.0, o = offset ? r.range(-50, 50) : 0.0;
        if (named) fill_in(file.var("other", packed ? NC_SHORT : NC_DOUBLE, d4), r, false, false, false, 1, 0, nullptr);
        fill_in(file.var("Water_Temp", packed ? NC_SHORT : r.chance(0.5) ? NC_FLOAT : NC_DOUBLE, d4), r, scale, offset, fill, s, o, &value);
    }
    void fill_in(Var& v, sim::Rng& r, bool scale, bool offset, bool fill, double s, double o, std::vector<double>* out) {
        const double none = -30000.0;
        if (fill) v.atts.push_back({"_FillValue", none});
        if (scale) v.atts.push_back({"scale_factor", s});
        if (offset) v.atts.push_back({"add_offset", o});
        for (size_t i = 0; i < v.data.size(); ++i) {
            double x = g.duplicate && i % g.nlng == g.nlng - 1 ? v.data[i - g.nlng + 1] : fill && r.chance(0.1) ? none : v.type == NC_SHORT ? double(r.range(-20000, 20000)) : f32(40.0 * r.unit());
            v.data[i] = x;
            if (out) out->push_back(fill && x == none ? double(NAN) : x * s + o);
        }
    }
    bool edit(File& f, sim::Rng& r) override {
        if (r.chance(0.6)) return false;
        if (named && r.chance(0.5)) { f.vars[f.find("Water_Temp")].name = "something"; return true; }
        for (auto n : {"Water_Temp", "other"}) if (f.find(n) < f.vars.size()) f.vars.erase(f.vars.begin() + long(f.find(n)));
        return true;
    }
    std::shared_ptr<void> load(const std::string& n) override { return std::make_shared<netcdf_profile>(n.c_str(), date, g.south, g.north, g.west, g.east, named ? "temp" : nullptr); }
    void verify(const void* p) override {
        auto& b = *static_cast<const netcdf_profile*>(p);
        sim::check(b.axis(0).size() == depths.size(), "wrong-shape", "%zu depths, the file has %zu", b.axis(0).size(), depths.size());
        for (size_t i = 0; i < depths.size(); ++i) close_to(R - b.axis(0)(i), depths[i], 1e-6, "depth", i);
        g.locate(b.axis(1), b.axis(2));
        for (size_t d = 0; d < depths.size(); ++d) for (size_t i = 0; i < g.rows.size(); ++i) for (size_t j = 0; j < g.cols.size(); ++j) {
            size_t k[3] = {d, i, j};
            double got = b.data(k), want = value[((best * depths.size() + d) * g.nlat + g.rows[i]) * g.nlng + g.cols[j]];
            if (want != want) same(got, want, "temperature", d, i * 1000 + j);
            else close_to(got, want, 1e-9 * std::max(1.0, std::fabs(want)), "temperature", d, i * 1000 + j);
        }
    }
};
// World Ocean Atlas: a shallow file of one month and a deep one
struct Woa : NcSource {
    size_t nlat, nlng, nd, ns; double lat0, lng0; std::vector<double> deep_, shallow_, depths; bool both; File shallow; int month; std::string second; bool swapped = false;
    double none = -99999.0;
    std::vector<double> column(sim::Rng& r, size_t n, File& f, const std::vector<double>& times, size_t best) {
        size_t id[4] = {f.dim("time", times.size()), f.dim("depth", n), f.dim("lat", nlat), f.dim("lon", nlng)};
        f.var("time", NC_DOUBLE, {id[0]}).data = times;
        f.var("depth", NC_FLOAT, {id[1]}).data.assign(depths.begin(), depths.begin() + long(n));
        auto& la = f.var("lat", NC_FLOAT, {id[2]}); for (size_t i = 0; i < nlat; ++i) la.data[i] = lat0 + double(i);
        auto& ln = f.var("lon", NC_FLOAT, {id[3]}); for (size_t i = 0; i < nlng; ++i) ln.data[i] = lng0 + double(i);
        auto& v = f.var("t_an", NC_FLOAT, {id[0], id[1], id[2], id[3]});
        v.atts.push_back({"_FillValue", none});
        std::vector<double> out(n * nlat * nlng);
        for (size_t t = 0; t < times.size(); ++t) for (size_t i = 0; i < nlat; ++i) for (size_t j = 0; j < nlng; ++j) {
            size_t valid = i == 0 && j == 0 ? n : size_t(bottom[i * nlng + j]);   // what is below the bottom is missing
            for (size_t d = 0; d < n; ++d) {
                double x = d < valid ? f32(25.0 - double(d) + 2.0 * r.unit()) : none;
                v.data[((t * n + d) * nlat + i) * nlng + j] = x;
                if (t == best) out[(d * nlat + i) * nlng + j] = x == none ? double(NAN) : x;
            }
        }
        return out;
    }
    std::vector<int> bottom; size_t deepest;
    explicit Woa(sim::Rng& r) : NcSource(r) {
        nlat = size_t(r.range(2, 4)); nlng = size_t(r.range(2, 4)); nd = size_t(r.range(2, 7)); ns = size_t(r.range(1, int(nd)));
        lat0 = -20.5 + r.below(40); lng0 = 20.5 + r.below(100);
        double d = 0.0; for (size_t i = 0; i < nd; ++i) { depths.push_back(d); d += 10.0 * r.range(1, 10); }
        deepest = size_t(r.range(2, int(nd)));
        for (size_t i = 0; i < nlat * nlng; ++i) bottom.push_back(r.range(0, int(deepest)));
        both = r.chance(0.7); month = r.range(1, 12);
        std::vector<double> months; for (int m = 0; m < 12; ++m) months.push_back(15.0 + 30.5 * m);
        auto nearest = [&](const std::vector<double>& t) { double w = std::round(30.5 * (month - 0.5)); w = double(int(w)); size_t b = 0; for (size_t i = 0; i < t.size(); ++i) if (std::fabs(t[i] - w) < std::fabs(t[b] - w)) b = i; return b; };
        std::vector<double> seasons = {46, 136, 228, 320};
        if (r.chance(0.5)) seasons = {182};
        deep_ = column_to(r, nd, file, seasons, nearest(seasons));
        if (both) shallow_ = column_to(r, ns, shallow, months, nearest(months));
        needed = {"time", "depth", "lat", "lon"};
    }
    std::vector<double> column_to(sim::Rng& r, size_t n, File& f, const std::vector<double>& t, size_t b) {
        // one column reaches the deepest level that has data
        bottom[0] = int(deepest);
        size_t reach = std::min(n, deepest);
        std::vector<int> keep = bottom;
        for (auto& x : bottom) x = std::min(x, int(reach));
        std::vector<double> out = columns(r, n, reach, f, t, b);
        bottom = keep;
        return out;
    }
    std::vector<double> columns(sim::Rng& r, size_t n, size_t reach, File& f, const std::vector<double>& t, size_t b) {
        auto out = column(r, n, f, t, b);
        if (reach < n) {     // not even the first column has data below
            auto& v = f.vars[f.find("t_an")];
            for (size_t k = 0; k < t.size(); ++k) for (size_t d = reach; d < n; ++d) v.data[(k * n + d) * nlat * nlng] = none;
            for (size_t d = reach; d < n; ++d) out[d * nlat * nlng] = double(NAN);
        }
        return out;
    }
    bool edit(File& f, sim::Rng& r) override {
        if (r.chance(0.7)) return false;
        f.vars.erase(f.vars.begin() + long(f.find("t_an")));      // another name would do
        return true;
    }
    void write(const std::string& name, sim::Rng&) override { file.save(name, classic); second = name + "2"; if (both) shallow.save(second, classic); }
    bool spoil(const std::string& name, sim::Rng& r) override {
        second = name + "2";
        if (both && r.chance(0.4)) {      // files of different grids
            File g = shallow;
            if (nd > ns && r.chance(0.5)) { shallow.save(name, classic); file.save(second, classic); return true; }
            auto& la = g.vars[g.find("lat")];
            la.data.pop_back(); g.dims[2].len -= 1;
            auto& v = g.vars[g.find("t_an")]; v.data.resize(v.data.size() / nlat * (nlat - 1));
            file.save(name, classic); g.save(second, classic);
            return true;
        }
        if (both) shallow.save(second, classic);
        return NcSource::spoil(name, r);
    }
    std::shared_ptr<void> load(const std::string& n) override {
        return std::make_shared<netcdf_woa>(n.c_str(), both ? (n + "2").c_str() : nullptr, month, lat0, lat0 + double(nlat - 1), lng0, lng0 + double(nlng - 1));
    }
    void verify(const void* p) override {
        auto& b = *static_cast<const netcdf_woa*>(p);
        sim::check(b.axis(0).size() == nd && b.axis(1).size() == nlat && b.axis(2).size() == nlng, "wrong-shape", "grid of %zu x %zu x %zu", b.axis(0).size(), b.axis(1).size(), b.axis(2).size());
        for (size_t i = 0; i < nlat; ++i) close_to(to_latitude(b.axis(1)(i)), lat0 + double(i), 1e-6, "latitude", i);
        for (size_t i = 0; i < nlng; ++i) close_to(deg(b.axis(2)(i)), lng0 + double(i), 1e-6, "longitude", i);
        std::vector<double> v = deep_;
        for (size_t i = 0; i < shallow_.size(); ++i) v[i] = shallow_[i];
        size_t last = 0;
        for (size_t i = 0; i < v.size(); ++i) if (v[i] == v[i]) last = std::max(last, i / (nlat * nlng));
        for (size_t d = 0; d < nd; ++d) for (size_t i = 0; i < nlat; ++i) for (size_t j = 0; j < nlng; ++j) {
            size_t k[3] = {d, i, j}, up[3] = {d - 1, i, j};
            double want = v[(d * nlat + i) * nlng + j], got = b.data(k);
            if (want == want) { same(got, want, "temperature", d, i * 1000 + j); continue; }
            sim::check(got == got && std::fabs(got) < 1e4, "wrong-data", "the missing temperature at level %zu became %g", d, got);
            if (d <= last) {                  // a weighted mean of the valid values, or of the gradients above the valid ones
                double lo = INFINITY, hi = -INFINITY, mean = d ? (got - b.data(up)) / (depths[d] - depths[d - 1]) : got;
                for (size_t c = 0; c < nlat * nlng; ++c) {
                    double x = v[d * nlat * nlng + c];
                    if (d) x = (x - v[(d - 1) * nlat * nlng + c]) / (depths[d] - depths[d - 1]);
                    if (x == x) { lo = std::min(lo, x); hi = std::max(hi, x); }
                }
                if (lo <= hi) { sim::check(mean >= lo - 1e-6 && mean <= hi + 1e-6, "wrong-data", "the missing %s at level %zu [%zu,%zu] became %g, the valid ones are between %g and %g", d ? "gradient" : "temperature", d, i, j, mean, lo, hi); sim::probe("filled from valid values"); }
            }
            if (d > last && last > 0) {       // the last gradient fades
                size_t l[3] = {last, i, j}, m[3] = {last - 1, i, j};
                double slope = (b.data(l) - b.data(m)) / (depths[last] - depths[last - 1]);
                close_to((got - b.data(up)) / (depths[d] - depths[d - 1]), slope / std::pow(2.0, double(d - last)), 1e-6, "gradient below the data", d, i * 1000 + j);
            }
        }
    }
};
template <int N> struct Coards : NcSource {
    std::vector<std::vector<double>> ax; std::vector<double> value; bool fill;
    explicit Coards(sim::Rng& r) : NcSource(r) {
        std::vector<size_t> ids; size_t total = 1;
        for (int n = 0; n < N; ++n) {
            int len = r.range(1, 12), kind = r.range(0, 3);
            std::vector<double> a; double x = r.chance(0.4) ? 0.0 : 400.0 * r.unit() - 200.0, step = 0.05 + r.unit(), ratio = 1.1 + r.unit();
            if (kind == 1 && x <= 0) x = 0.5 + r.unit();
            for (int i = 0; i < len; ++i) { a.push_back(x); if (kind == 0) x += step; else if (kind == 1) x *= ratio; else if (kind == 2) x += 0.1 + 5.0 * r.unit(); else { x += step; step *= 1.0 + 0.02 * r.unit(); } }
            if (r.chance(0.3)) std::reverse(a.begin(), a.end());
            ax.push_back(a); total *= a.size();
            std::string name = std::string("axis") + char('a' + n);
            ids.push_back(file.dim(name, a.size()));
            file.var(name, NC_DOUBLE, {ids.back()}).data = a;
            needed.push_back(name);
        }
        fill = r.chance(0.5);
        bool missing = r.chance(0.5), has_fill = r.chance(0.5);
        auto& v = file.var("field", r.chance(0.5) ? NC_FLOAT : NC_DOUBLE, ids);
        needed.push_back("field");
        if (missing) v.atts.push_back({"missing_value", -999.0});
        if (has_fill) v.atts.push_back({"_FillValue", -777.0});
        for (size_t i = 0; i < total; ++i) {
            double x = r.chance(0.15) ? -999.0 : f32(100.0 * r.unit());
            v.data[i] = x;
            value.push_back(missing && x == -999.0 ? (fill && has_fill ? -777.0 : double(NAN)) : x);
        }
    }
    bool edit(File& f, sim::Rng& r) override {
        if (r.chance(0.5)) return false;
        size_t v = f.find("field");
        if (r.chance(0.5)) {       // more dimensions than expected
            size_t d = f.dim("more", 40); size_t n = f.vars[v].data.size() * 40;
            f.var("more", NC_DOUBLE, {d});
            f.vars[v].dims.push_back(d); f.vars[v].data.resize(n);
        } else {                   // coordinates along another dimension
            size_t d = f.dim("longer", f.dims[0].len + 50); (void)d;
            auto& a = f.vars[f.find("axisa")];
            a.dims = {d}; a.data.resize(f.dims[d].len); for (size_t i = 0; i < a.data.size(); ++i) a.data[i] = double(i);
        }
        return true;
    }
    std::shared_ptr<void> load(const std::string& n) override {
        netCDF::NcFile f(n, netCDF::NcFile::read);
        return std::make_shared<netcdf_coards<N>>(f, "field", fill);
    }
    void verify(const void* p) override {
        auto& b = *static_cast<const netcdf_coards<N>*>(p);
        size_t total = 1;
        for (int n = 0; n < N; ++n) {
            sim::check(b.axis(size_t(n)).size() == ax[size_t(n)].size(), "wrong-shape", "axis %d has %zu values, %zu in the file", n, b.axis(size_t(n)).size(), ax[size_t(n)].size());
            auto& a = ax[size_t(n)];
            for (size_t i = 0; i < a.size(); ++i) {
                double near_by = 1e300; if (i > 0) near_by = std::fabs(a[i] - a[i - 1]); if (i + 1 < a.size()) near_by = std::min(near_by, std::fabs(a[i + 1] - a[i]));
                if (a.size() == 1) near_by = 0;
                close_to(b.axis(size_t(n))(i), a[i], std::max(0.01 * near_by, 1e-5 * std::fabs(a[i])), "axis", i, size_t(n));
            }
            total *= a.size();
        }
        for (size_t i = 0; i < total; ++i) same(b.data()[i], value[i], "field", i);
    }
};
struct Bottom : NcSource {
    std::vector<double> lat, lng, type, col[5];
    explicit Bottom(sim::Rng& r) : NcSource(r) {
        size_t n = size_t(r.range(1, 4));
        const char* names[5] = {"speed_ratio", "density_ratio", "atten", "shear_speed", "shear_atten"};
        for (int c = 0; c < 5; ++c) {
            size_t d = file.dim(names[c], n);
            auto& v = file.var(names[c], NC_DOUBLE, {d});
            for (size_t i = 0; i < n; ++i) { v.data[i] = c < 2 ? 1.1 + r.unit() : c == 3 ? 0.0 : 0.1 + 0.5 * r.unit(); if (c == 3 && r.chance(0.3)) v.data[i] = 0.3 * r.unit(); col[c].push_back(v.data[i]); }
            needed.push_back(names[c]);
        }
        auto axis = [&](double x, bool down) { std::vector<double> a; bool even = r.chance(0.5); double st = 0.2 + r.unit(); for (int i = r.range(1, 12); i > 0; --i) { a.push_back(x); x += (down ? -1 : 1) * (even ? st : 0.3 + r.unit()); } return a; };
        lat = axis(26.0 + r.unit(), r.chance(0.2)); lng = axis(-80.0 - r.unit(), r.chance(0.5));
        size_t dx = file.dim("longitude", lng.size()), dy = file.dim("latitude", lat.size());
        file.var("longitude", NC_DOUBLE, {dx}).data = lng; file.var("latitude", NC_DOUBLE, {dy}).data = lat;
        auto& t = file.var("type", NC_DOUBLE, {dy, dx});
        for (auto& x : t.data) { x = double(r.below(uint32_t(n))); type.push_back(x); }
        needed.insert(needed.end(), {"longitude", "latitude", "type"});
    }
    bool edit(File& f, sim::Rng& r) override {
        if (r.chance(0.5)) return false;
        if (r.chance(0.5)) { auto& t = f.vars[f.find("type")].data; t[r.below(uint32_t(t.size()))] = r.chance(0.5) ? double(col[0].size()) + r.below(5) : -1.0 - r.below(5); }
        else { size_t d = f.dim("more", col[0].size() + 3); auto& v = f.vars[f.find(needed[r.below(5)])]; v.dims = {d}; v.data.resize(f.dims[d].len, 1.5); }
        return true;
    }
    std::shared_ptr<void> load(const std::string& n) override { return std::make_shared<reflect_loss_netcdf>(n.c_str()); }
    void verify(const void* p) override {
        auto& b = *static_cast<const reflect_loss_netcdf*>(p);
        seq_vector::csptr f(new seq_linear(1000.0, 500.0, size_t(2)));
        for (size_t i = 0; i < lat.size(); ++i) for (size_t j = 0; j < lng.size(); ++j) {
            boost::numeric::ublas::vector<double> a(2), pa(2), c(2), pc(2);
            size_t t = size_t(type[i * lng.size() + j]);
            double angle = 0.3 + 0.1 * double(i % 7);
            b.reflect_loss(wposition1(lat[i], lng[j]), f, angle, &a, &pa);
            reflect_loss_rayleigh(col[1][t], col[0][t], col[2][t], col[3][t], col[4][t]).reflect_loss(wposition1(lat[i], lng[j]), f, angle, &c, &pc);
            for (size_t q = 0; q < 2; ++q) { close_to(a[q], c[q], 1e-9, "loss", i, j); close_to(pa[q], pc[q], 1e-9, "phase", i, j); }
        }
    }
};

std::unique_ptr<Source> source(int kind, uint64_t seed) {
    sim::Rng r(seed);
    switch (kind) {
        case 0: return std::unique_ptr<Source>(new Arc(r));
        case 1: return std::unique_ptr<Source>(new Csv(r));
        case 2: return std::unique_ptr<Source>(new Bathy(r));
        case 3: return std::unique_ptr<Source>(new Profile(r));
        case 4: return std::unique_ptr<Source>(new Woa(r));
        case 5: return r.chance(0.5) ? std::unique_ptr<Source>(new Coards<1>(r)) : r.chance(0.5) ? std::unique_ptr<Source>(new Coards<2>(r)) : std::unique_ptr<Source>(new Coards<3>(r));
        default: return std::unique_ptr<Source>(new Bottom(r));
    }
}
constexpr int SOURCES = 7;

void arm(const sim::Plan& p, bool only_eio) {
    for (auto& o : p.ops) if (o.thr == -1 && o.is("disk") && (!only_eio || (o.a[1] & 15) == sim::IO_EIO)) sim::io_arm(o.a[0], int(o.a[1]));
}
// writes one file; returns what has to happen to it
int prepare(Source& s, const std::string& name, int way, sim::Rng& r) {
    sim::NoPreempt np;
    if (way == TRUNCATED && !s.truncates()) way = HEALTHY;
    if (way == LAYOUT) s.spoil(name, r);
    else if (way == GARBAGE) garbage(name, r);
    else if (way != MISSING) s.write(name, r);
    if (way == TRUNCATED) {
        if (s.ascii) {      // without the last value
            FILE* f = fopen(name.c_str(), "r"); std::string t; int c;
            while ((c = fgetc(f)) != EOF) t += char(c);
            fclose(f);
            size_t e = t.find_last_not_of(" \r\n\t"); e = t.find_last_of(" \r\n\t", e);
            put_text(name, t.substr(0, size_t(r.below(uint32_t(e + 1)))));
        } else cut(name, r);
    }
    return way;
}
// loads one file in one way; the disk may fail meanwhile
void one(Source& s, const std::string& name, int way, uint64_t seed, const sim::Plan& p) {
    sim::Rng r(seed);
    way = prepare(s, name, way, r);
    int fds = sim::open_fds();
    if (way == FAULTY) arm(p, s.classic);
    uint64_t fired = sim::io_fired(), mark = sim::heap_mark();
    bool threw = false;
    std::shared_ptr<void> loaded;
    try { loaded = s.load(name); } catch (const std::exception& e) { threw = true; sim::trace("load: %.60s", e.what()); }
    bool fault = sim::io_fired() > fired;
    sim::Heap left = sim::heap_since(mark);
    sim::io_disarm();
    if (way >= TRUNCATED) sim::check(threw, "bad-file-accepted", "loading %s (%s) reported no error", way_name(way), kind);
    else if (threw) sim::check(fault, "spurious-failure", "loading a %s failed on a healthy disk", kind);
    if (!threw) { s.verify(loaded.get()); sim::nontrivial(); if (fault) sim::probe("fault-absorbed"); }
    else sim::probe("load-failed");
    if (!fault) sim::check(sim::open_fds() == fds, "left-open", "a file is still open after %s", threw ? "loading failed" : "it was loaded");
    if (threw && left.count) { sim::heap_report(mark, 5); sim::violate("leak", "%llu blocks left after loading failed", (unsigned long long)left.count); }
    if (threw) {
        std::string good = name + ".good";
        { sim::NoPreempt np; s.write(good, r); }
        try { loaded = s.load(good); } catch (const std::exception& e) { sim::violate("retry-failed", "loading a %s from a healthy disk failed after an earlier failure: %s", kind, e.what()); }
        s.verify(loaded.get());
    }
}

void gen_disk(sim::Rng& r, sim::Plan& p, int horizon) {
    int k = r.chance(0.6) ? sim::IO_EIO : r.chance(0.5) ? sim::IO_SHORT : sim::IO_EINTR;
    if (r.chance(0.4) && k != sim::IO_EINTR) k |= sim::IO_STICKY;
    p.add(-1, "disk", {r.range(0, horizon), k});
}
void load_gen(sim::Rng& r, sim::Plan& p) {
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) p.add(0, "load", {r.below(SOURCES), r.chance(0.4) ? FAULTY : r.chance(0.4) ? HEALTHY : r.below(WAYS), int64_t(r.next() >> 1), int64_t(r.next() >> 1)});
    for (int i = r.range(1, 2); i > 0; --i) gen_disk(r, p, r.chance(0.6) ? 10 : 60);
}
void load_run(const sim::Plan& p) {
    sim::set_density(0.05);
    int n = 0;
    each_op(p, 0, [&](const sim::Op& o) {
        kind = kinds[int(o.a[0]) % SOURCES];
        auto s = source(int(o.a[0]) % SOURCES, uint64_t(o.a[2]));
        one(*s, std::string(sim::scratch()) + "/e" + std::to_string(n++), int(o.a[1]) % WAYS, uint64_t(o.a[3]), p);
    });
}
sim::Registrar r1({"environment-load", load_gen, load_run, "1-3 files (ARC bathymetry, profile table, netCDF bathymetry, profile, World Ocean Atlas, COARDS grid, bottom provinces) of random content are loaded from healthy, failing, truncated, rearranged and missing files; non-trivial when one was loaded"});

// several threads load ASCII files at once
void ascii_gen(sim::Rng& r, sim::Plan& p) {
    int t = r.range(2, 4);
    for (int i = 0; i < t; ++i) for (int n = r.range(1, 2); n > 0; --n)
        p.add(i, "load", {r.below(2), r.chance(0.3) ? FAULTY : r.chance(0.6) ? HEALTHY : r.below(WAYS), int64_t(r.next() >> 1), int64_t(r.next() >> 1)});
    if (r.chance(0.4)) gen_disk(r, p, 20);
}
void ascii_run(const sim::Plan& p) {
    sim::set_density(0.7);
    struct File { std::unique_ptr<Source> s; std::string name; int way; };
    std::vector<std::vector<File>> files(size_t(max_client(p)) + 1);
    std::vector<size_t> next(files.size(), 0);
    bool faulty = false;
    for (auto& o : p.ops) {
        if (o.is("disk")) { faulty = true; continue; }
        if (!o.is("load")) continue;
        auto& l = files[size_t(o.thr)];
        l.push_back({source(int(o.a[0]) % 2, uint64_t(o.a[2])), std::string(sim::scratch()) + "/t" + std::to_string(o.thr) + "." + std::to_string(l.size()), int(o.a[1]) % WAYS});
        sim::Rng r(uint64_t(o.a[3]));
        l.back().way = prepare(*l.back().s, l.back().name, l.back().way, r);
    }
    int fds = sim::open_fds();
    uint64_t fired = sim::io_fired();
    arm(p, false);
    run_clients(p, [&](int t, const sim::Op&) {
        auto& f = files[size_t(t)][next[size_t(t)]++];
        std::shared_ptr<void> loaded;
        try { loaded = f.s->load(f.name); } catch (const std::exception& e) { sim::trace("load: %.60s", e.what()); }
        if (loaded) {
            sim::check(f.way < TRUNCATED, "bad-file-accepted", "loading %s reported no error", way_name(f.way));
            f.s->verify(loaded.get()); sim::nontrivial();
        } else {
            sim::probe("load-failed");
            if (f.way < TRUNCATED) sim::check(faulty && sim::io_fired() > fired, "spurious-failure", "loading failed on a healthy disk");
        }
    });
    sim::io_disarm();
    if (sim::io_fired() == fired) sim::check(sim::open_fds() == fds, "left-open", "a file is still open");
}
sim::Registrar r2({"ascii-load", ascii_gen, ascii_run, "2-4 threads load ASCII files at once; non-trivial when one was loaded"});

// ---- a whole ocean from the databases -------------------------------------
// five files of one region in the directory of databases
struct Databases {
    std::unique_ptr<Bathy> floor; std::unique_ptr<Woa> temp, salt; double south, north, west, east;
    std::string dir;
    const char* names[5] = {"/bathymetry/ETOPO1_Ice_g_gmt4.grd", "/woa09/temperature_seasonal_1deg.nc", "/woa09/temperature_monthly_1deg.nc", "/woa09/salinity_seasonal_1deg.nc", "/woa09/salinity_monthly_1deg.nc"};
    explicit Databases(uint64_t seed, const std::string& d) : dir(d) {
        for (uint64_t k = seed;; k += 7919) {
            sim::Rng a(k), b(k);
            temp.reset(new Woa(a)); salt.reset(new Woa(b));
            if (temp->both && temp->nd >= 4 && temp->deepest >= 3) break;
        }
        for (File* f : {&salt->file, &salt->shallow}) for (auto& x : f->vars[f->find("t_an")].data) if (x != salt->none) x = f32(x + 12.25);
        south = temp->lat0; north = south + double(temp->nlat - 1); west = temp->lng0; east = west + double(temp->nlng - 1);
        for (uint64_t k = seed + 1;; ++k) { sim::Rng r(k); floor.reset(new Bathy(r)); if (floor->g.global && floor->radius == R) break; }
        floor->g.south = south; floor->g.north = north; floor->g.west = west; floor->g.east = east;
    }
    File* file(int i) { return i == 0 ? &floor->file : i == 1 ? &temp->file : i == 2 ? &temp->shallow : i == 3 ? &salt->file : &salt->shallow; }
    bool classic(int i) { return i == 0 ? floor->classic : i < 3 ? temp->classic : salt->classic; }
    void write() {
        mkdir(dir.c_str(), 0777); mkdir((dir + "/bathymetry").c_str(), 0777); mkdir((dir + "/woa09").c_str(), 0777);
        for (int i = 0; i < 5; ++i) file(i)->save(dir + names[i], classic(i));
    }
    // false: there is no such damage
    bool damage(int i, int way, sim::Rng& r) {
        std::string n = dir + names[i];
        switch (way) {
            case TRUNCATED: if (classic(i)) return false; cut(n, r); return true;
            case MISSING: unlink(n.c_str()); return true;
            case GARBAGE: garbage(n, r); return true;
            case LAYOUT: { File g = *file(i); g.vars.erase(g.vars.begin() + long(g.find(i == 0 ? floor->needed[r.below(3)] : temp->needed[r.below(4)]))); g.save(n, classic(i)); return true; }
            default: return false;
        }
    }
    // the salinity of another grid: without the last latitude, or without the last depth
    void other_grid(sim::Rng& r) {
        bool depth = r.chance(0.5) && salt->nd > salt->ns;
        for (int i = 3; i < (depth ? 4 : 5); ++i) {
            File g = *file(i);
            auto& v = g.vars[g.find("t_an")];
            size_t d = depth ? 1 : 2, inner = depth ? salt->nlat * salt->nlng : salt->nlng, n = g.dims[d].len, outer = v.data.size() / inner / n;
            std::vector<double> x;
            for (size_t k = 0; k < outer; ++k) x.insert(x.end(), v.data.begin() + long(k * n * inner), v.data.begin() + long((k * n + n - 1) * inner));
            v.data = x; g.vars[g.find(g.dims[d].name)].data.pop_back(); g.dims[d].len -= 1;
            g.save(dir + names[i], classic(i));
        }
    }
};
uint64_t ask(const ocean_model::csptr& o, const Databases& d, uint64_t seed) {
    sim::Rng r(seed);
    uint64_t h = 1469598103934665603ull;
    auto mix = [&h](double v) { uint64_t b; if (v != v) v = 0.5; memcpy(&b, &v, 8); for (int i = 0; i < 8; ++i) { h ^= (b >> (8 * i)) & 255; h *= 1099511628211ull; } };
    seq_vector::csptr f(new seq_linear(500.0, 500.0, size_t(3)));
    for (int i = 0; i < 6; ++i) {
        double lat = d.south + (d.north - d.south) * r.unit(), lng = d.west + (d.east - d.west) * r.unit();
        wposition1 at(lat, lng, -30.0 * r.unit());
        for (auto b : {o->surface(), o->bottom()}) {
            double rho = 0; wvector1 n; b->height(at, &rho, &n); mix(rho); mix(n.theta()); mix(n.phi());
            boost::numeric::ublas::vector<double> x(3), y(3); x.clear(); y.clear();
            b->reflect_loss(at, f, 0.1 + r.unit(), &x, &y); for (double v : x) mix(v);
            b->scattering(at, f, 0.2 + 0.5 * r.unit(), 0.3, 0.1, 0.2, &x); for (double v : x) mix(v);
        }
        wposition w(1, 1); w.latitude(0, 0, lat); w.longitude(0, 0, lng); w.altitude(0, 0, at.altitude());
        boost::numeric::ublas::matrix<double> c(1, 1); wvector g(1, 1);
        o->profile()->sound_speed(w, &c, &g); mix(c(0, 0)); mix(g.rho(0, 0));
    }
    mix(double(o->num_volume()));
    return h;
}
void basic_gen(sim::Rng& r, sim::Plan& p) {
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) p.add(0, "ocean", {r.chance(0.3) ? FAULTY : r.chance(0.4) ? HEALTHY : r.below(WAYS + 1), r.below(5), int64_t(r.next() >> 1), r.range(0, 15), r.below(8)});
    for (int i = r.range(1, 2); i > 0; --i) gen_disk(r, p, r.chance(0.5) ? 40 : 200);
}
void basic_run(const sim::Plan& p) {
    sim::set_density(0.05);
    int n = 0;
    each_op(p, 0, [&](const sim::Op& o) {
        int way = int(o.a[0]) % (WAYS + 1), victim = int(o.a[1]) % 5;
        sim::Rng r(uint64_t(o.a[2]));
        ocean_model::csptr before = ocean_shared::current();
        std::unique_ptr<Databases> d;
        double wind = double(o.a[3]); auto type = bottom_type_enum(o.a[4] & 7);
        ocean_model::csptr want;
        bool classic = false, bad = way >= TRUNCATED;
        {
            sim::NoPreempt np;
            d.reset(new Databases(uint64_t(o.a[2]), std::string(sim::scratch()) + "/db" + std::to_string(n++)));
            d->write();
            for (int i = 0; i < 5; ++i) classic = classic || d->classic(i);
            setenv("USML_DATA_DIR", d->dir.c_str(), 1);
            // what the parts give
            auto part = [&](int i) { return d->dir + d->names[i]; };
            data_grid<2>::csptr floor(new netcdf_bathy(part(0).c_str(), d->south, d->north, d->west, d->east));
            d->floor->verify(static_cast<const netcdf_bathy*>(floor.get()));
            auto t = std::make_shared<netcdf_woa>(part(1).c_str(), part(2).c_str(), d->temp->month, d->south, d->north, d->west, d->east);
            auto s = std::make_shared<netcdf_woa>(part(3).c_str(), part(4).c_str(), d->temp->month, d->south, d->north, d->west, d->east);
            d->temp->verify(t.get());
            want.reset(new ocean_model(boundary_model::csptr(new boundary_flat(0.0, reflect_loss_model::csptr(new reflect_loss_eckart(wind)), scattering_model::csptr(new scattering_chapman(wind)))),
                                       boundary_model::csptr(new boundary_grid<2>(floor, reflect_loss_model::csptr(new reflect_loss_rayleigh(type)), scattering_model::csptr(new scattering_lambert()))),
                                       profile_model::csptr(new profile_grid<3>(data_grid<3>::csptr(new data_grid_mackenzie(t, s))))));
            if (way == WAYS) d->other_grid(r);
            else if (bad) bad = d->damage(victim, way, r);
        }
        int fds = sim::open_fds();
        if (way == FAULTY) arm(p, classic);
        uint64_t fired = sim::io_fired();
        bool threw = false;
        try { ocean_utils::make_basic(d->south, d->north, d->west, d->east, d->temp->month, wind, type); } catch (const std::exception& e) { threw = true; sim::trace("make_basic: %.60s", e.what()); }
        bool fault = sim::io_fired() > fired;
        sim::io_disarm();
        auto now = ocean_shared::current();
        if (bad) sim::check(threw, "bad-file-accepted", "an ocean was made from %s (%s)", way == WAYS ? "temperatures and salinities of different grids" : way_name(way), d->names[victim]);
        else if (threw) sim::check(fault, "spurious-failure", "making an ocean failed on a healthy disk");
        if (!fault) sim::check(sim::open_fds() == fds, "left-open", "a file is still open after %s", threw ? "making an ocean failed" : "an ocean was made");
        if (threw) { sim::check(now == before, "ocean-changed", "the shared ocean changed although making another one failed"); sim::probe("load-failed"); return; }
        sim::check(now != nullptr && now != before, "ocean-missing", "the shared ocean was not replaced");
        sim::NoPreempt np;
        sim::check(ask(now, *d, uint64_t(o.a[2])) == ask(want, *d, uint64_t(o.a[2])), "wrong-ocean", "the shared ocean is not that of its files");
        sim::nontrivial();
        if (fault) sim::probe("fault-absorbed");
    });
    ocean_shared::reset();
}
sim::Registrar r3({"basic-ocean", basic_gen, basic_run, "an ocean is made from five database files that are healthy, damaged or on a failing disk; non-trivial when it was made"});
}  // namespace
