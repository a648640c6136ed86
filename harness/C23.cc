// C23: every call returns, after work bounded by the window (steps), the batch
// (fits) or a constant (queries).  The work is counted through the user
// replaceable float helpers, which every logarithm and exponential goes
// through; a call that does not return is caught by the engine's CPU watchdog.
#define BIG_ONE_IN 200
#include "common.hpp"

static unsigned long g_calls, g_blocks;
// called by the library at every basic block (build "work")
extern "C" void __sanitizer_cov_trace_pc() { g_blocks++; }
static double c_frexp(double x, int *e) {
    g_calls++;
    return std::frexp(x, e);
}
static double c_ldexp(double x, int e) {
    g_calls++;
    return std::ldexp(x, e);
}

static const double WEIRD[] = {NaN, INF, -INF, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 5e-324, -5e-324, 0.0, -0.0, 1e300, -1e300, 1e-300, 1e18, -1e18, 1.0, 1 + 1e-15};

static double weird(Src &s) {
    switch (s.below(4)) {
    case 0: return WEIRD[s.below(sizeof WEIRD / sizeof *WEIRD)];
    case 1: {
        uint64_t b = s.bits() | (s.below(2) << 63);
        double d;
        memcpy(&d, &b, 8);
        return d;
    }
    case 2: return (s.chance(50) ? 1 : -1) * std::pow(10.0, s.unit() * 600 - 300);
    default: return s.unit();
    }
}
// a thousand evaluations per stored excess, and some for the rest
static unsigned long per_window(unsigned long k) { return 1000 * (k + 2); }
// ten times the worst seen on the original code
static unsigned long blocks_window(unsigned long k) { return 40000 * (k + 2); }

static const unsigned long MAXQ = 240; // about six times the original code

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    set_float_utils(c_ldexp, c_frexp);
    Cfg cfg = gen_cfg(s, 120);
    unsigned taste = s.below(4); // 0: tame, 1: some weird values, 2: weird scales, 3: all weird
    Family f = taste == 2 ? gen_family(s, false, -280, 280) : gen_family(s, false);
    Det d;
    REQUIRE(d.init(cfg) == 0, "valid configuration refused");
    maybe_used(s, {{&d.s, 1.0}}, c);
    if (s.chance(90)) {
        size_t n = s.chance(10) ? s.below(6) : gen_size(s, 1500);
        auto b = gen_batch(s, f, n);
        if (taste == 1 || taste == 3)
            for (auto &x : b)
                if (taste == 3 ? s.chance(70) : s.below(20) == 19) x = weird(s);
        g_calls = g_blocks = 0;
        int r = d.fit(b);
        unsigned long k = peaks_size(&d.s.tail.peaks);
        c.describe("%s, %s batch of %zu (taste %u), fit -> %d, %lu evaluations for %lu excesses;", show(cfg).c_str(), f.name(), n, taste, r, g_calls, k);
        REQUIRE(g_blocks <= blocks_window(k) + 300 * n + 40 * d.s.Nt * (k + 2), "the fit on %zu values (%lu excesses) ran through %lu basic blocks", n, k, g_blocks);
        REQUIRE(g_calls <= per_window(k) + 50 * n, "the fit on %zu values (%lu excesses) made %lu evaluations", n, k, g_calls);
    }
    maybe_age(s, {&d.s}, c);
    unsigned long exc = 0, most = 0;
    unsigned steps = 0;
    while (steps < 80 && s.below(40) != 0) {
        steps++;
        unsigned long burst = s.below(40) == 39 ? 1 + s.below(300) : 1;
        Rng r(burst > 1 ? s.seed() : 0);
        for (unsigned long i = 0; i < burst; i++) {
            double x = burst > 1 ? f.draw(r) : (taste == 3 || (taste == 1 && s.below(10) == 9)) ? weird(s) : gen_step(s, d.s, f, false);
            g_calls = g_blocks = 0;
            int v = spot_step(&d.s, x);
            unsigned long k = peaks_size(&d.s.tail.peaks);
            if (v == EXCESS) {
                exc++;
                REQUIRE(g_blocks <= blocks_window(k), "an excess (%.17g) with %lu excesses in the window ran through %lu basic blocks", x, k, g_blocks);
                if (k) most = std::max(most, g_calls / (k + 2));
                REQUIRE(g_calls <= per_window(k), "an excess (%.17g) with %lu excesses in the window cost %lu evaluations", x, k, g_calls);
            } else {
                REQUIRE(g_calls <= 16, "a value (%.17g) judged %d cost %lu evaluations", x, v, g_calls);
                REQUIRE(g_blocks <= 300, "a value (%.17g) judged %d ran through %lu basic blocks", x, v, g_blocks);
            }
        }
        if (s.chance(30)) {
            const struct Spot &p = d.s;
            double up = cfg.low ? -1 : 1, q, z;
            switch (s.below(5)) {
            case 0: q = weird(s); break;
            case 1: q = s.pick({cfg.q, (double)p.Nt / p.n, 0.0, 1.0, 0.5}); break;
            default: q = s.unit(); break;
            }
            switch (s.below(6)) {
            case 0: z = weird(s); break;
            case 1: z = s.pick({p.excess_threshold, p.anomaly_threshold, p.excess_threshold + up * p.tail.peaks.max, p.excess_threshold + up * p.tail.peaks.min, p.excess_threshold - up * p.tail.sigma / p.tail.gamma, 0.0}); break;
            case 2: z = p.excess_threshold - up * f.scale * s.unit(); break;
            default: z = p.anomaly_threshold + s.unit(); break;
            }
            g_calls = g_blocks = 0;
            spot_quantile(&d.s, q);
            REQUIRE(g_blocks <= MAXQ, "a quantile query for %.17g ran through %lu basic blocks", q, g_blocks);
            REQUIRE(g_calls <= 16, "a quantile query for %.17g cost %lu evaluations", q, g_calls);
            g_calls = g_blocks = 0;
            spot_probability(&d.s, z);
            REQUIRE(g_blocks <= MAXQ, "a probability query for %.17g ran through %lu basic blocks", z, g_blocks);
            REQUIRE(g_calls <= 16, "a probability query for %.17g cost %lu evaluations", z, g_calls);
        }
    }
    c.describe(" %u operations, %lu excesses, at most %lu evaluations per stored excess", steps, exc, most);
    if (most > 100) c.label("more than 100 evaluations per stored excess");
    if (exc) c.label("excesses", exc);
    c.label(taste == 0 ? "tame data" : taste == 1 ? "some weird values" : taste == 2 ? "extreme scales" : "weird values");
    if (exc >= 2) c.nontrivial();
}
const Prop PROP = {"C23",
                   "detectors of any configuration fitted and streamed with tame, extreme-scale or arbitrary values (NaN, infinities, subnormals, raw bit "
                   "patterns), logarithms and exponentials counted through the replaceable helpers: at most 1000 per stored excess for a fit or an excess, "
                   "16 for another value or a query (also exactly on the thresholds, the extreme excesses and the endpoint); the basic blocks run are counted too (40000 per stored excess, 300 per training value, 300 for another "
                   "value, 240 for a query); a call using more CPU than the watchdog allows is a hang; non-trivial: at least two excesses",
                   run, nullptr};
