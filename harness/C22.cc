// C22: every build of the library answers the same, whatever the memory contained before.
// The builds are shared libraries listed in VP_SO_LIST (the first is the reference).
#include "common.hpp"
#include <dlfcn.h>
#include <cstddef>

struct Lib {
    std::string name;
    int (*init)(struct Spot *, double, int, int, double, unsigned long);
    int (*fit)(struct Spot *, const double *, unsigned long);
    int (*step)(struct Spot *, double);
    double (*quant)(const struct Spot *, double), (*prob)(const struct Spot *, double);
    void (*fr)(struct Spot *);
    void (*alloc)(malloc_fn, free_fn);
    double (*log)(double), (*exp)(double), (*pow)(double, double);
    void (*error)(enum LibspotError, char *, unsigned long);
    void (*version)(char *, unsigned long);
};
static std::vector<Lib> libs;
static unsigned char fill; // what fresh memory contains
static void *dirty_malloc(size_t n) {
    void *p = malloc(n);
    if (p) memset(p, fill, n);
    return p;
}
static void *must(void *h, const char *n) {
    void *p = dlsym(h, n);
    if (!p) {
        fprintf(stderr, "no symbol %s\n", n);
        _Exit(96);
    }
    return p;
}
static void start(int, int) {
    const char *l = getenv("VP_SO_LIST");
    std::string all = l ? l : "";
    while (!all.empty()) {
        size_t k = all.find(':');
        std::string p = all.substr(0, k);
        all = k == std::string::npos ? "" : all.substr(k + 1);
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) {
            fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror());
            _Exit(96);
        }
        Lib x;
        x.name = p.substr(p.rfind('/') + 1);
#define S(f, n) *(void **)&x.f = must(h, n)
        S(init, "spot_init");
        S(fit, "spot_fit");
        S(step, "spot_step");
        S(quant, "spot_quantile");
        S(prob, "spot_probability");
        S(fr, "spot_free");
        S(alloc, "set_allocators");
        S(log, "xlog");
        S(exp, "xexp");
        S(pow, "xpow");
        S(error, "libspot_error");
        S(version, "libspot_version");
#undef S
        x.alloc(dirty_malloc, free);
        libs.push_back(x);
    }
    if (libs.size() < 2) {
        fprintf(stderr, "nothing to compare\n");
        _Exit(96);
    }
}

struct Op {
    int kind; // 0 fit, 1 step, 2 quantile, 3 probability, 4 log, 5 exp, 6 pow
    double x, y;
    std::vector<double> b;
};
static void record(std::vector<double> &t, const struct Spot &s) {
    t.insert(t.end(), {s.q, s.level, (double)s.low, (double)s.discard_anomalies, s.anomaly_threshold, s.excess_threshold, (double)s.n, (double)s.Nt,
                       s.tail.gamma, s.tail.sigma, s.tail.peaks.e, s.tail.peaks.e2, s.tail.peaks.min, s.tail.peaks.max});
}
static std::vector<double> play(const Lib &l, const Cfg &cfg, const std::vector<Op> &ops, unsigned char garbage) {
    std::vector<double> t;
    struct Spot sp;
    fill = garbage;
    memset(&sp, garbage, sizeof sp);
    int r = l.init(&sp, cfg.q, cfg.low, cfg.disc, cfg.level, cfg.cap);
    t.push_back(r);
    if (r) return t;
    record(t, sp);
    for (auto &o : ops) {
        switch (o.kind) {
        case 0: t.push_back(l.fit(&sp, o.b.data(), o.b.size())); record(t, sp); break;
        case 1: t.push_back(l.step(&sp, o.x)); record(t, sp); break;
        case 2: t.push_back(l.quant(&sp, o.x)); break;
        case 3: t.push_back(l.prob(&sp, o.x)); break;
        case 4: t.push_back(l.log(o.x)); break;
        case 5: t.push_back(l.exp(o.x)); break;
        default: t.push_back(l.pow(o.x, o.y)); break;
        }
    }
    unsigned long k = sp.tail.peaks.container.filled ? sp.tail.peaks.container.capacity : sp.tail.peaks.container.cursor;
    for (unsigned long i = 0; i < k; i++) t.push_back(sp.tail.peaks.container.data[i]);
    l.fr(&sp);
    return t;
}
static double anydouble(Src &s) {
    uint64_t b = s.bits() | (s.below(2) << 63);
    double d;
    memcpy(&d, &b, 8);
    return d;
}

static void run(Src &s, Ctx &c) {
    const Lib &R = libs[0];
    Cfg cfg = gen_cfg(s, 60);
    Family f = gen_family(s, s.chance(60));
    std::vector<Op> ops;
    fill = 0;
    struct Spot sp;
    memset(&sp, 0, sizeof sp);
    REQUIRE(R.init(&sp, cfg.q, cfg.low, cfg.disc, cfg.level, cfg.cap) == 0, "valid configuration refused");
    unsigned exc = 0, nfit = 0;
    Stepper st(s, f, s.chance(70), 150, 300);
    do {
        Op o{1, 0, 0, {}};
        unsigned k = s.below(30);
        if (ops.empty() || k == 29) {
            o.kind = 0;
            o.b = gen_batch(s, st.f, s.chance(5) ? s.below(5) : gen_size(s, 400));
            if (s.chance(4) && !o.b.empty()) o.b[s.below(o.b.size())] = NaN;
            nfit++;
            R.fit(&sp, o.b.data(), o.b.size());
        } else if (k >= 26) {
            o.kind = 2 + s.below(2);
            o.x = o.kind == 2 ? (s.chance(80) ? std::pow(10.0, -8 * s.unit()) : anydouble(s)) : gen_step(s, sp, st.f, false);
        } else if (k == 25) {
            o.kind = 4 + s.below(3);
            o.x = s.chance(50) ? anydouble(s) : 10 * s.unit();
            o.y = s.chance(50) ? anydouble(s) : 10 * s.unit() - 5;
        } else {
            o.x = st.next(sp);
            exc += R.step(&sp, o.x) == EXCESS;
        }
        ops.push_back(o);
    } while (st.more());
    R.fr(&sp);
    c.describe("%s, %s data (scale %g offset %g), %zu operations with %u fits and %u excesses, on %zu builds", show(cfg).c_str(), f.name(), f.scale, f.off,
               ops.size(), nfit, exc, libs.size());
    auto ref = play(R, cfg, ops, 0);
    for (size_t i = 0; i < libs.size(); i++)
        for (unsigned char garbage : {(unsigned char)0xA5, (unsigned char)0xFF}) {
            if (i && garbage == 0xFF) continue;
            auto t = play(libs[i], cfg, ops, garbage);
            REQUIRE(t.size() == ref.size(), "%s (memory filled with %02x) gives another history than %s", libs[i].name.c_str(), garbage, R.name.c_str());
            for (size_t k = 0; k < t.size(); k++)
                REQUIRE(same(t[k], ref[k]), "%s (memory filled with %02x) and %s disagree at result %zu: %.17g vs %.17g", libs[i].name.c_str(), garbage,
                        R.name.c_str(), k, t[k], ref[k]);
        }
    { // texts
        enum LibspotError e = (enum LibspotError)(998 + s.below(10));
        unsigned long sz = s.below(100);
        std::string want;
        for (auto &l : libs) {
            char buf[128], buf2[128];
            memset(buf, 'x', sizeof buf);
            memset(buf2, 'x', sizeof buf2);
            l.error(e, buf, sz);
            l.version(buf2, sz);
            std::string got = std::string(buf, sizeof buf) + std::string(buf2, sizeof buf2);
            if (want.empty()) want = got;
            REQUIRE(got == want, "%s and %s give different texts for error %d, size %lu", l.name.c_str(), R.name.c_str(), (int)e, sz);
        }
    }
    if (exc >= 2) c.nontrivial();
}
const Prop PROP = {"C22",
                   "a generated history (creation, fits, steps, queries, log/exp/pow, texts) is played on every build (gcc and clang, -O0 to -O3, freestanding, "
                   "pattern-initialised locals, single-file C++) with structure and heap pre-filled with different garbage; every result and the whole state "
                   "after each operation must be identical; non-trivial: at least two excesses were absorbed",
                   run, start};
