// Random number streams depend only on their seed (C21).
#include "common.h"
#include <usml/ublas/randgen.h>
#include <cmath>
#include <cstring>
#include <memory>
#include <thread>
using usml::ublas::randgen;

namespace {
enum What { UNIFORM, GAUSSIAN, CGAUSSIAN, VUNIFORM, VGAUSSIAN, VCGAUSSIAN, MUNIFORM, MGAUSSIAN, MCGAUSSIAN, SEED, FRESH, COPY, ASSIGN, WHATS };

// the draws of one generator since it was seeded, one by one
struct History { unsigned seed = 0; std::vector<std::pair<int, double>> drawn; };   // 0: uniform, 1: gaussian
struct Stream {
    std::unique_ptr<randgen> g;       // the generator under test, with a past
    std::unique_ptr<randgen> alone;   // one that was seeded alike and is drawn from one by one
    History h;
};
bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

struct Client {
    std::vector<Stream> s;
    std::vector<History> done;
    void expect(Stream& t, int kind, double got) {
        double want = kind ? t.alone->gaussian() : t.alone->uniform();
        sim::check(same(got, want), "wrong-stream", "value %zu after seed %u is %.17g, a generator that was seeded alike gives %.17g", t.h.drawn.size(), t.h.seed, got, want);
        if (kind == 0) sim::check(got >= 0.0 && got < 1.0, "wrong-range", "the uniform value %.17g is not in [0,1)", got);
        sim::check(got == got && std::fabs(got) < 20.0, "wrong-range", "the value %.17g is not plausible", got);
        t.h.drawn.push_back({kind, got});
    }
    void reset(Stream& t, unsigned seed) {
        if (!t.h.drawn.empty()) done.push_back(t.h);
        t.h = History(); t.h.seed = seed;
        t.alone.reset(new randgen(seed));
    }
    void op(const sim::Op& o) {
        Stream& t = s[size_t(o.a[1]) % s.size()];
        int n = int(o.a[2] % 7), m = int(o.a[3] % 4);
        unsigned seed = unsigned(o.a[2] % 50);
        sim::point("draw");
        switch (o.a[0] % WHATS) {
            case UNIFORM: expect(t, 0, t.g->uniform()); break;
            case GAUSSIAN: expect(t, 1, t.g->gaussian()); break;
            case CGAUSSIAN: { auto c = t.g->cgaussian(); expect(t, 1, c.real()); expect(t, 1, c.imag()); break; }
            case VUNIFORM: { auto v = t.g->uniform(n); sim::check(v.size() == size_t(n), "wrong-size", "%zu values instead of %d", v.size(), n); for (auto x : v) expect(t, 0, x); break; }
            case VGAUSSIAN: { auto v = t.g->gaussian(n); sim::check(v.size() == size_t(n), "wrong-size", "%zu values instead of %d", v.size(), n); for (auto x : v) expect(t, 1, x); break; }
            case VCGAUSSIAN: { auto v = t.g->cgaussian(n); sim::check(v.size() == size_t(n), "wrong-size", "%zu values instead of %d", v.size(), n); for (auto x : v) { expect(t, 1, x.real()); expect(t, 1, x.imag()); } break; }
            case MUNIFORM: { auto v = t.g->uniform(n, m); sim::check(v.size1() == size_t(n) && v.size2() == size_t(m), "wrong-size", "wrong shape"); for (size_t i = 0; i < v.size1(); ++i) for (size_t j = 0; j < v.size2(); ++j) expect(t, 0, v(i, j)); break; }
            case MGAUSSIAN: { auto v = t.g->gaussian(n, m); sim::check(v.size1() == size_t(n) && v.size2() == size_t(m), "wrong-size", "wrong shape"); for (size_t i = 0; i < v.size1(); ++i) for (size_t j = 0; j < v.size2(); ++j) expect(t, 1, v(i, j)); break; }
            case MCGAUSSIAN: { auto v = t.g->cgaussian(n, m); sim::check(v.size1() == size_t(n) && v.size2() == size_t(m), "wrong-size", "wrong shape"); for (size_t i = 0; i < v.size1(); ++i) for (size_t j = 0; j < v.size2(); ++j) { expect(t, 1, v(i, j).real()); expect(t, 1, v(i, j).imag()); } break; }
            case SEED: t.g->seed(seed); reset(t, seed); sim::nontrivial(); break;
            case FRESH: t.g.reset(new randgen(seed)); reset(t, seed); break;
            case COPY: { Stream c; c.g.reset(new randgen(*t.g)); c.alone.reset(new randgen(*t.alone)); c.h = t.h; if (s.size() < 4) s.push_back(std::move(c)); break; }     // goes on by itself
            default: { Stream& f = s[size_t(o.a[2]) % s.size()]; if (&f != &t) { *t.g = *f.g; if (!t.h.drawn.empty()) done.push_back(t.h); t.alone.reset(new randgen(*f.alone)); t.h = f.h; } break; }
        }
    }
};

void gen(sim::Rng& r, sim::Plan& p) {
    int n = r.range(1, 4);
    for (int c = 0; c < n; ++c) {
        p.add(c, "op", {FRESH, 0, r.below(50)});
        for (int k = r.range(1, 14); k > 0; --k) p.add(c, "op", {r.chance(0.25) ? SEED : r.below(WHATS), r.below(4), r.below(1000), r.below(8)});
        p.add(c, "op", {r.chance(0.5) ? GAUSSIAN : VCGAUSSIAN, 0, 1});
    }
}
void run(const sim::Plan& p) {
    sim::set_density(0.6);
    std::vector<Client> c(size_t(max_client(p)) + 1);
    for (size_t i = 0; i < c.size(); ++i) for (int k = 0; k < 2; ++k) {
        c[i].s.emplace_back();
        unsigned seed = unsigned(10 * i) + unsigned(k);
        c[i].s.back().g.reset(new randgen(seed));
        c[i].reset(c[i].s.back(), seed);
    }
    run_clients(p, [&](int t, const sim::Op& o) { c[size_t(t)].op(o); });
    // all that was drawn, again and alone, from one generator
    randgen again(12345u);
    for (auto& x : c) {
        for (auto& t : x.s) x.done.push_back(t.h);
        for (auto& h : x.done) {
            again.seed(h.seed);
            size_t k = 0;
            for (auto& d : h.drawn) { double v = d.first ? again.gaussian() : again.uniform(); sim::check(same(v, d.second), "wrong-stream", "value %zu after seed %u was %.17g among other threads and is %.17g alone", k++, h.seed, d.second, v); }
        }
    }
}
sim::Registrar r1({"random-streams", gen, run, "1-4 threads draw from, seed, copy and replace their own generators at once; non-trivial when a used generator was seeded"});
}  // namespace
