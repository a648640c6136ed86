// Generators, detector snapshots and reference formulas shared by the checks.
#pragma once
#include "engine.hpp"
#include <algorithm>
#include <cfloat>
#include <limits>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "spot.h"
}

static const double NaN = std::numeric_limits<double>::quiet_NaN();
static const double INF = std::numeric_limits<double>::infinity();

// ----------------------------------------------------------------- floats
inline bool same(double a, double b) { return a == b || (a != a && b != b); }
// equal up to rel*max(|a|,|b|) + abs; NaN equals NaN
inline bool near(double a, double b, double rel, double abs_ = 0) {
    if (same(a, b)) return true;
    double m = std::max(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) <= rel * m + abs_;
}

// ----------------------------------------------------------------- configuration
#ifndef BIG_ONE_IN
#define BIG_ONE_IN 600
#endif
struct Cfg {
    double q, level;
    int low, disc;
    unsigned long cap;
};
inline std::string show(const Cfg &c) {
    return fmt("q=%.17g level=%.17g low=%d discard=%d max_excess=%lu", c.q, c.level, c.low, c.disc, c.cap);
}
// rare cases with a large window and a batch that fills it
static thread_local bool g_big = false, g_huge = false;
// a valid configuration; capacities up to maxcap (up to 4500 in the rare large cases)
inline Cfg gen_cfg(Src &s, unsigned long maxcap = 200) {
    Cfg c;
    switch (s.below(4)) {
    case 0: c.level = s.pick({0.9, 0.98, 0.95, 0.99, 0.5, 0.8, 0.0, 0.998}); break;
    case 1: c.level = 0.5 + 0.499 * s.unit(); break;
    case 2: c.level = 0.8 + 0.19 * s.unit(); break;
    default: c.level = s.unit(); break;
    }
    double room = 1.0 - c.level;
    double f;
    switch (s.below(4)) {
    case 0: f = 0.1; break;
    case 1: f = std::pow(10.0, -1.0 - (s.chance(90) ? 7.0 : 14.0) * s.unit()); break;
    case 2: f = 0.05 + 0.9 * s.unit(); break;
    default: f = s.pick({0.5, 0.01, 0.001, 0.9}); break;
    }
    c.q = room * f;
    if (!(c.q < 1.0 - c.level) || !(c.q > 0)) c.level = 0.9, c.q = 0.01;
    c.low = s.chance(45);
    c.disc = !s.chance(40);
    unsigned long k;
    switch (s.below(4)) {
    case 0: k = 10 + s.below(40); break;
    case 1: k = 1 + s.below(6); break;
    case 2: k = s.pick({200ul, 100ul, 50ul, 500ul, 1000ul}); break;
    default: k = 1 + s.below(maxcap); break;
    }
    c.cap = std::min(k, maxcap);
    g_big = s.below(BIG_ONE_IN) == BIG_ONE_IN - 1;
    g_huge = false;
    if (g_big) {
        c.cap = s.pick({500ul, 512ul, 513ul, 1000ul, 1024ul, 1025ul, 2048ul, 4096ul}) + s.below(3) * s.below(200);
        g_huge = s.below(15) == 14;
        if (g_huge) c.cap = s.pick({5000ul, 8192ul, 10000ul, 16384ul, 20000ul}) + s.below(3);
        if (c.level > 0.9) c.level = 0.5 + 0.4 * s.unit();
        c.q = (1.0 - c.level) * f;
        if (!(c.q < 1.0 - c.level) || !(c.q > 0)) c.level = 0.8, c.q = 0.01;
    }
    return c;
}

// ----------------------------------------------------------------- data
struct Family {
    int kind;
    double scale, off, par;
    const char *name() const {
        static const char *n[] = {"normal", "exponential", "uniform", "pareto", "lognormal", "lattice",
                                  "two-valued", "zero-inflated", "constant", "beta-bounded"};
        return n[kind];
    }
    template <class R> double draw(R &r) const {
        double u = r.unit(), x;
        switch (kind) {
        case 0: {
            double v = r.unit();
            x = std::sqrt(-2 * std::log1p(-u)) * std::cos(6.283185307179586 * v);
            break;
        }
        case 1: x = -std::log1p(-u); break;
        case 2: x = u; break;
        case 3: x = std::pow(1 - u, -1 / par) - 1; break;
        case 4: {
            double v = r.unit();
            x = std::exp(0.7 * std::sqrt(-2 * std::log1p(-u)) * std::cos(6.283185307179586 * v));
            break;
        }
        case 5: x = std::floor(u * (2 + 20 * par)); break;
        case 6: x = u < 0.8 ? 0 : 1; break;
        case 7: x = u < 0.7 ? 0 : -std::log((1 - u) / 0.3); break;
        case 8: x = 1; break;
        default: x = 1 - std::pow(1 - u, par); break;
        }
        return off + scale * x;
    }
};
// continuous = no ties; regular = continuous laws only
inline Family gen_family(Src &s, bool continuous, double lo_dec = -6, double hi_dec = 6) {
    Family f;
    static const int cont[] = {0, 1, 2, 3, 4, 9};
    static const int all[] = {0, 1, 2, 3, 4, 9, 5, 6, 7, 8, 0, 1};
    f.kind = continuous ? cont[s.below(6)] : all[s.below(12)];
    f.scale = s.chance(50) ? std::pow(10.0, lo_dec + (hi_dec - lo_dec) * s.unit()) : 1.0;
    switch (s.below(4)) {
    case 0: f.off = 0; break;
    case 1: f.off = f.scale * (s.unit() * 20 - 10); break;
    case 2: f.off = f.scale * s.pick({100.0, -100.0, 1.0, -1.0}); break;
    default: f.off = 0; break;
    }
    f.par = 0.5 + 4 * s.unit();
    return f;
}
inline std::vector<double> gen_batch(Src &s, const Family &f, size_t n) {
    std::vector<double> v(n);
    if (n <= 48) {
        for (auto &x : v) x = f.draw(s);
    } else {
        Rng r(s.seed());
        for (auto &x : v) x = f.draw(r);
    }
    return v;
}
inline size_t gen_size(Src &s, size_t maxn = 2000) {
    size_t n;
    if (g_huge) return 30000 + s.below(s.chance(25) ? 150000 : 40000);
    if (g_big) return 2000 + s.below(s.chance(10) ? 68000 : 8000);
    switch (s.below(5)) {
    case 0: n = 5 + s.below(8); break;
    case 1: n = 20 + s.below(100); break;
    case 2: n = 100 + s.below(400); break;
    case 3: n = 5 + s.below(maxn - 4); break;
    default: n = 40 + s.below(200); break;
    }
    return std::min(n, maxn);
}

// ----------------------------------------------------------------- steps
inline double beyond(const struct Spot &sp, double d) { return sp.low ? -d : d; }
// a value for the next step, biased towards the current thresholds
template <class R> double gen_step(R &s, const struct Spot &sp, const Family &f, bool finite_only) {
    double up = sp.low ? -1 : 1, et = sp.excess_threshold, at = sp.anomaly_threshold;
    unsigned k = s.below(finite_only ? 14 : 18);
    double x;
    switch (k) {
    default: x = f.draw(s); break;
    case 4: // round values, which code may take for something else
        x = s.below(3) == 2 ? s.pick({0.0, -1.0, 1.0, -2.0, 2.0, 0.5, 10.0, 100.0, -100.0, 255.0, 256.0, -999.0, 999.0, -9999.0, 1e6, -1e6}) : f.draw(s);
        break;
    case 5: x = et; break;
    case 6: x = std::nextafter(et, s.chance(50) ? INF : -INF); break;
    case 7: x = at; break;
    case 8: x = std::nextafter(at, s.chance(50) ? INF : -INF); break;
    case 9: x = et + (at - et) * s.unit(); break;
    case 10: x = at + up * std::fabs(at - et) * (s.unit() * 3); break;
    case 11: x = et + up * f.scale * s.unit(); break;
    case 12: x = at + up * f.scale * std::pow(10.0, 6 * s.unit() - 3); break;
    case 13: x = et - up * f.scale * std::pow(10.0, 6 * s.unit() - 3); break;
    case 14: x = NaN; break;
    case 15: x = s.chance(50) ? INF : -INF; break;
    case 16: x = s.pick({0.0, -0.0, DBL_MIN, 5e-324, -5e-324, 1e300, -1e300, DBL_MAX, -DBL_MAX}); break;
    case 17: x = NaN; break;
    }
    if (finite_only && !std::isfinite(x)) x = f.draw(s);
    return x;
}

// the values of a stream: one by one from the tape, or in bursts expanded from
// one seed; the data law may change on the way
struct Stepper {
    Src &s;
    Family f;
    bool finite;
    unsigned maxsteps, steps = 0, burst_max, kind = 0;
    unsigned long burst = 0;
    double fixed = 0;
    Rng rng{0};
    Stepper(Src &s_, const Family &f_, bool finite_, unsigned maxsteps_ = 300, unsigned burst_max_ = 1500)
        : s(s_), f(f_), finite(finite_), maxsteps(maxsteps_), burst_max(burst_max_) {}
    bool more() {
        if (burst) return true;
        if (steps >= maxsteps || s.below(40) == 0 || (g_huge && steps >= 25)) return false;
        unsigned k = s.below(400);
        if (k == 399 && burst_max && !g_huge) {
            burst = 1 + s.below(burst_max);
            rng = Rng(s.seed());
            kind = s.below(12); // 0-5 mixed, then all anomalies, all normal, all excesses, one value, NaN
        } else if (k >= 395) {
            double sc = f.scale;
            f = gen_family(s, false);
            if (s.chance(70)) f.off += 0, f.scale = sc * std::pow(10.0, s.unit() * 4 - 2);
        }
        return true;
    }
    double next(const struct Spot &sp) {
        steps++;
        if (burst) {
            burst--;
            double up = sp.low ? -1 : 1, et = sp.excess_threshold, at = sp.anomaly_threshold, x = NaN;
            switch (kind) {
            case 6:
            case 7: x = at + up * f.scale * (0.1 + rng.unit()); break;
            case 8: x = et - up * f.scale * (0.1 + rng.unit()); break;
            case 9: x = et + (at - et) * rng.unit(); break;
            case 10: x = fixed; break;
            case 11: return finite ? f.draw(rng) : NaN;
            }
            if (std::isfinite(x) && kind != 10) fixed = x;
            if (kind >= 6 && std::isfinite(x)) return x;
            if (rng.below(10) < 6) return f.draw(rng);
            return gen_step(rng, sp, f, finite);
        }
        return fixed = gen_step(s, sp, f, finite);
    }
};

// ----------------------------------------------------------------- detectors
inline void use_libc_allocators() { set_allocators(malloc, free); }

// a block of any size whose pages all alias one small file: creations with an
// enormous capacity can be granted without the memory
struct Phantom {
    void *p = nullptr;
    size_t len = 0;
    static const size_t CHUNK = 1ul << 28;
    bool get(size_t n) {
        len = (n + CHUNK - 1) / CHUNK * CHUNK;
        p = mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) return p = nullptr, false;
        int fd = memfd_create("phantom", 0);
        bool ok = fd >= 0 && ftruncate(fd, CHUNK) == 0;
        for (size_t o = 0; ok && o < len; o += CHUNK)
            ok = mmap((char *)p + o, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
        if (fd >= 0) close(fd);
        if (!ok) drop();
        return ok;
    }
    void drop() {
        if (p) munmap(p, len);
        p = nullptr;
    }
    ~Phantom() { drop(); }
};

struct Det { // RAII detector
    struct Spot s;
    bool live = false;
    Det() { memset(&s, 0, sizeof s); }
    Det(const Det &) = delete;
    int init(const Cfg &c) {
        int r = spot_init(&s, c.q, c.low, c.disc, c.level, c.cap);
        live = r == 0;
        return r;
    }
    int fit(const std::vector<double> &v) { return spot_fit(&s, v.data(), v.size()); }
    ~Det() {
        if (live) spot_free(&s);
    }
};

struct Snap { // everything a user can see of a detector
    double q, level, at, et, gamma, sigma, e, e2, mn, mx;
    int disc, low;
    unsigned long Nt, n, cap;
    std::vector<double> win; // sorted
};
inline std::vector<double> window(const struct Spot &s) {
    unsigned long k = peaks_size(&s.tail.peaks);
    const double *d = s.tail.peaks.container.data;
    return std::vector<double>(d, d + k);
}
inline Snap snap(const struct Spot &s) {
    Snap r;
    r.q = s.q, r.level = s.level, r.at = s.anomaly_threshold, r.et = s.excess_threshold;
    r.gamma = s.tail.gamma, r.sigma = s.tail.sigma;
    r.e = s.tail.peaks.e, r.e2 = s.tail.peaks.e2, r.mn = s.tail.peaks.min, r.mx = s.tail.peaks.max;
    r.disc = s.discard_anomalies, r.low = s.low, r.Nt = s.Nt, r.n = s.n, r.cap = s.tail.peaks.container.capacity;
    r.win = window(s);
    std::sort(r.win.begin(), r.win.end());
    return r;
}
// "" when identical, else the first difference
inline std::string diff(const Snap &a, const Snap &b, bool ignore_n = false) {
#define D_(f)                                                                                      \
    if (!same(a.f, b.f)) return fmt(#f ": %.17g vs %.17g", (double)a.f, (double)b.f)
    D_(q);
    D_(level);
    D_(disc);
    D_(low);
    D_(cap);
    if (!ignore_n) D_(n);
    D_(Nt);
    D_(et);
    D_(at);
    D_(gamma);
    D_(sigma);
    D_(e);
    D_(e2);
    D_(mn);
    D_(mx);
#undef D_
    if (a.win.size() != b.win.size()) return fmt("window size: %zu vs %zu", a.win.size(), b.win.size());
    for (size_t i = 0; i < a.win.size(); i++)
        if (!same(a.win[i], b.win[i])) return fmt("window: %.17g vs %.17g", a.win[i], b.win[i]);
    return "";
}
inline std::string show(const struct Spot &s) {
    return fmt("n=%lu Nt=%lu et=%.17g at=%.17g gamma=%.17g sigma=%.17g win=%lu/%lu", s.n, s.Nt, s.excess_threshold,
               s.anomaly_threshold, s.tail.gamma, s.tail.sigma, peaks_size(&s.tail.peaks),
               s.tail.peaks.container.capacity);
}

// ----------------------------------------------------------------- reference formulas
typedef long double LD;
inline LD ref_survival(LD s, LD g, LD sg, LD d) {
    if (g == 0) return s * expl(-d / sg);
    LD r = 1 + d * g / sg;
    if (r <= 0) return 0;
    return s * powl(r, -1 / g);
}
inline LD ref_quantile(LD s, LD g, LD sg, LD q) {
    LD r = q / s;
    if (g == 0) return -sg * logl(r);
    return sg / g * expm1l(-g * logl(r));
}
// bound on the rounding error of the library's quantile (its log is good to
// 1e-10 absolute, relative 1e-9 near one)
inline LD quantile_tol(LD s, LD g, LD sg, LD q) {
    LD l = fabsl(logl(q / s));
    LD el = std::min((LD)2e-10L, 1e-9L * l) + 1e-14L * l + 4e-16L; // error of log(q/s)
    if (g == 0) return sg * el + 1e-15L * sg * l;
    LD p = powl(q / s, -g);
    // d(pow) = pow * (|g| el + 1e-12), then minus one and times sigma/gamma
    return fabsl(sg / g) * (p * (fabsl(g) * el + 4e-13L * fminl(1, fabsl(g) * l * 4) + 6e-16L) + 6e-16L);
}

// now and then the detector has a past: earlier fits (also refused ones) and
// streams on other data; a second detector gets the mirrored past (sign -1)
static bool maybe_used(Src &s, std::initializer_list<std::pair<struct Spot *, double>> l, Ctx &c) {
    if (s.below(8) != 7) return false;
    unsigned rounds = 1 + s.below(2);
    for (unsigned k = 0; k < rounds; k++) {
        Family g = gen_family(s, false);
        size_t n = s.below(12) == 11 ? s.below(5) : 5 + s.below(s.chance(30) ? 400 : 60);
        unsigned long steps = s.below(4) ? s.below(120) : 0;
        Rng r(s.seed());
        std::vector<double> v(n), m(n);
        for (auto &x : v) x = g.draw(r);
        for (auto &p : l) {
            for (size_t i = 0; i < n; i++) m[i] = p.second * v[i];
            spot_fit(p.first, m.data(), n);
        }
        for (unsigned long i = 0; i < steps; i++) {
            double x = gen_step(r, *l.begin()->first, g, true);
            for (auto &p : l) spot_step(p.first, p.second * x);
        }
    }
    c.label("fitted before");
    c.describe(" (fitted %u times before)", rounds);
    return true;
}

// As if the detectors (in the same state) had already been running for very
// long on data like theirs: counters just below a power of two, same fraction
// of excesses.
static bool maybe_age(Src &s, std::initializer_list<struct Spot *> l, Ctx &c) {
    if (s.below(10) != 9) return false;
    struct Spot *a = *l.begin();
    if (a->n == 0 || a->Nt == 0) return false;
    static const int P[] = {16, 31, 32, 33, 24, 40, 15};
    unsigned long top = (1ul << P[s.below(7)]) - s.below(40), n = a->n, nt = a->Nt;
    if (s.chance(40)) { // decimal round numbers
        top = 1;
        for (unsigned k = 3 + s.below(8); k; k--) top *= 10;
        top = top * (1 + s.below(4)) - s.below(40);
    }
    if (top <= n) return false;
    long double ratio = (long double)nt / n;
    if (s.chance(50)) {
        n = top;
        nt = std::max(nt, (unsigned long)(ratio * n));
    } else {
        nt = top;
        n = std::max(n, (unsigned long)(nt / ratio));
    }
    for (struct Spot *p : l) p->n = n, p->Nt = nt;
    c.label("long history");
    c.describe(" (counters moved to n=%lu Nt=%lu)", n, nt);
    return true;
}
