// C19: on i.i.d. data alarms come about as often as requested.
#include "common.hpp"

// true mass strictly beyond z of the law (upper tail when up)
static double law_sf(const Family &f, double z, bool up) {
    double x = (z - f.off) / f.scale, cdf, sf;
    switch (f.kind) {
    case 0: sf = 0.5 * std::erfc(x / std::sqrt(2)), cdf = 0.5 * std::erfc(-x / std::sqrt(2)); break;
    case 1: sf = x <= 0 ? 1 : std::exp(-x), cdf = x <= 0 ? 0 : -std::expm1(-x); break;
    case 2: sf = x <= 0 ? 1 : x >= 1 ? 0 : 1 - x, cdf = 1 - sf; break;
    case 3: sf = x <= 0 ? 1 : std::pow(1 + x, -f.par), cdf = x <= 0 ? 0 : -std::expm1(-f.par * std::log1p(x)); break;
    case 4: {
        if (x <= 0) {
            sf = 1, cdf = 0;
            break;
        }
        double l = std::log(x) / 0.7;
        sf = 0.5 * std::erfc(l / std::sqrt(2)), cdf = 0.5 * std::erfc(-l / std::sqrt(2));
        break;
    }
    default: // beta-bounded
        sf = x <= 0 ? 1 : x >= 1 ? 0 : std::pow(1 - x, 1 / f.par);
        cdf = 1 - sf;
    }
    return up ? sf : cdf;
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    static const int kinds[] = {0, 1, 2, 3, 4, 9};
    static const double levels[] = {0.95, 0.9, 0.98};
    static const double fracs[] = {0.1, 0.2};
    Family f;
    f.kind = kinds[s.below(6)];
    f.scale = s.chance(60) ? std::pow(10.0, 12 * s.unit() - 6) : 1;
    f.off = s.chance(60) ? f.scale * (20 * s.unit() - 10) : 0;
    f.par = f.kind == 3 ? 1.5 + 3 * s.unit() : 0.3 + 0.6 * s.unit();
    Cfg cfg;
    cfg.level = levels[s.below(3)];
    cfg.q = (1 - cfg.level) * fracs[s.below(2)];
    cfg.low = s.chance(50);
    cfg.disc = !s.chance(40);
    cfg.cap = s.pick({200ul, 300ul, 150ul});
    if (s.chance(20)) { // zero somewhere in the tail
        double m = cfg.q * std::pow((1 - cfg.level) / cfg.q, s.unit() * 1.3 - 0.2), lo = -1e7, hi = 1e7;
        Family g = f;
        g.scale = 1, g.off = 0;
        for (int i = 0; i < 200; i++) {
            double mid = 0.5 * (lo + hi);
            ((law_sf(g, mid, true) > (cfg.low ? 1 - m : m)) ? lo : hi) = mid;
        }
        f.off = -lo * f.scale;
        c.label("zero in the tail");
    } else if (s.chance(10)) {
        f.off = (s.chance(50) ? 1 : -1) * f.scale * std::pow(10.0, 2 + 6 * s.unit());
        c.label("far from zero");
    }
    const unsigned REP = 25;
    size_t ntrain = s.pick({4000, 2500, 6000}), nstream = 3000;
    std::vector<double> lr0, lr1;
    double flagged = 0, expected = 0, steps = 0;
    uint64_t seed = s.seed();
    for (unsigned rep = 0; rep < REP; rep++) {
        Rng r(seed * 31 + rep);
        std::vector<double> b(ntrain);
        for (auto &x : b) x = f.draw(r);
        Det d;
        REQUIRE(d.init(cfg) == 0, "valid configuration refused");
        int fr = d.fit(b);
        REQUIRE(fr == 0, "fit failed (%d) on %zu %s values", fr, ntrain, f.name());
        double mass = law_sf(f, d.s.anomaly_threshold, !cfg.low);
        lr0.push_back(std::log((mass + 1e-9) / cfg.q));
        for (size_t i = 0; i < nstream; i++) {
            double x = f.draw(r), at = d.s.anomaly_threshold;
            expected += mass;
            steps++;
            bool beyond = cfg.low ? x < at : x > at;
            int v = spot_step(&d.s, x);
            if (cfg.disc ? v == ANOMALY : beyond) flagged++;
            if (d.s.anomaly_threshold != at) mass = law_sf(f, d.s.anomaly_threshold, !cfg.low);
        }
        lr1.push_back(std::log((mass + 1e-9) / cfg.q));
    }
    std::sort(lr0.begin(), lr0.end());
    std::sort(lr1.begin(), lr1.end());
    double m0 = std::exp(lr0[REP / 2]), m1 = std::exp(lr1[REP / 2]), fr = flagged / steps / cfg.q;
    c.describe("%s, %s scale %g offset %g par %g, train %zu, %u replicates of %zu steps: median mass beyond the threshold %.3f q after training, "
               "%.3f q at the end, %.3f q of the values flagged",
               show(cfg).c_str(), f.name(), f.scale, f.off, f.par, ntrain, REP, nstream, m0, m1, fr);
    if (getenv("VP_C19")) // calibration of the bands below
        fprintf(stderr, "DATA %d low%d disc%d lev%g frac%g cap%lu sc%g par%.2f n%zu %.4f %.4f %.4f\n", f.kind, cfg.low, cfg.disc, cfg.level,
                cfg.q / (1 - cfg.level), cfg.cap, f.scale, f.par, ntrain, m0, m1, fr);
    // Bands: about twice the spread seen over 3000 cases.  A detector that discards
    // anomalies feeds on truncated data and settles at up to three times q; a law with
    // a finite end may get a threshold beyond its end when q is small.
    bool bounded = f.kind == 2 || f.kind == 9 || (cfg.low && (f.kind == 1 || f.kind == 3));
    bool small = cfg.q < 0.15 * (1 - cfg.level);
    double lo0, hi0, lo1, hi1, lof, hif;
    if (!small) {
        lo0 = bounded ? 0.5 : 0.6, hi0 = 1.6;
        lo1 = cfg.disc ? 0.8 : 0.6, hi1 = cfg.disc ? 4.5 : 1.5;
        lof = cfg.disc ? 0.7 : 0.55, hif = cfg.disc ? 3.2 : 1.6;
    } else if (!bounded) {
        lo0 = 0.35, hi0 = 1.8;
        lo1 = cfg.disc ? 0.55 : 0.35, hi1 = cfg.disc ? 6 : 1.7;
        lof = cfg.disc ? 0.5 : 0.4, hif = cfg.disc ? 3.8 : 1.7;
    } else {
        lo0 = 0, hi0 = 1.6, lo1 = 0, hi1 = cfg.disc ? 5 : 1.6;
        lof = cfg.disc ? 0.05 : 0.07, hif = cfg.disc ? 3.2 : 1.6;
    }
    REQUIRE(m0 >= lo0 && m0 <= hi0, "median true mass beyond the anomaly threshold after training is %.3f q, outside [%g, %g] q", m0, lo0, hi0);
    REQUIRE(m1 >= lo1 && m1 <= hi1, "median true mass beyond the anomaly threshold after the stream is %.3f q, outside [%g, %g] q", m1, lo1, hi1);
    REQUIRE(fr >= lof && fr <= hif, "%.3f q of the values were flagged, outside [%g, %g] q", fr, lof, hif);
    // whatever the thresholds were, the flags must be those of the values beyond them
    REQUIRE(std::fabs(flagged - expected) <= 7 * std::sqrt(expected) + 10, "%g values flagged, %g expected from the thresholds", flagged, expected);
    c.label(std::string(f.name()) + (cfg.low ? " lower" : " upper"));
    c.label(f.scale < 1e-2 ? "scale < 1e-2" : f.scale > 1e2 ? "scale > 1e2" : "scale near 1");
    c.nontrivial();
}
const Prop PROP = {"C19",
                   "a law (normal, exponential, uniform, Pareto, lognormal, bounded), location, scale, tail side, level and q; 25 independent detectors "
                   "trained on 2500-6000 values and fed 3000 more; median true mass beyond the threshold (from the law's exact cdf) after training "
                   "and at the end, and flagged frequency, must lie in calibrated bands around q; every case is non-trivial",
                   run, nullptr};
