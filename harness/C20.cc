// C20: a fitted detector never goes blind on finite data; a fit without thresholds says so.
#include "common.hpp"

static const double LIMIT = 1e12;
static double clampv(double x) { return x > LIMIT ? LIMIT : x < -LIMIT ? -LIMIT : x; }

static void judge(const struct Spot &s, const Cfg &cfg, const char *when, Ctx &c) {
    REQUIRE(!std::isnan(s.excess_threshold), "%s: the excess threshold is NaN (%s)", when, show(s).c_str());
    REQUIRE(!std::isnan(s.anomaly_threshold), "%s: the anomaly threshold is NaN (%s)", when, show(s).c_str());
    REQUIRE(!std::isnan(s.tail.gamma), "%s: gamma is NaN (%s)", when, show(s).c_str());
    REQUIRE(!std::isnan(s.tail.sigma), "%s: sigma is NaN (%s)", when, show(s).c_str());
    REQUIRE(s.tail.sigma >= 0, "%s: sigma is negative (%s)", when, show(s).c_str());
    REQUIRE(std::isfinite(s.excess_threshold), "%s: the excess threshold is infinite (%s)", when, show(s).c_str());
    if (std::isinf(s.anomaly_threshold)) c.label("infinite anomaly threshold");
    if (cfg.q < (double)s.Nt / (double)s.n) {
        double up = cfg.low ? -1 : 1, et = s.excess_threshold;
        REQUIRE(up * (s.anomaly_threshold - et) >= -1e-9 * (std::fabs(et) * 1e-6 + std::fabs(s.tail.sigma)),
                "%s: anomaly threshold on the bulk side of the excess threshold (%s)", when, show(s).c_str());
    }
}

// training batches, from regular to hopeless
static std::vector<double> train(Src &s, Family &f, std::string &what, bool &regular) {
    size_t n = gen_size(s, 1000);
    regular = false;
    std::vector<double> v;
    switch (s.below(8)) {
    default:
        f = gen_family(s, true);
        v = gen_batch(s, f, n);
        regular = true;
        what = f.name();
        break;
    case 4:
        f = gen_family(s, false);
        v = gen_batch(s, f, n);
        what = f.name();
        break;
    case 5: { // constant
        f = gen_family(s, true);
        v.assign(n, f.draw(s));
        what = "constant";
        break;
    }
    case 6: { // batch with NaN or infinite entries, or too short
        f = gen_family(s, true);
        v = gen_batch(s, f, n);
        if (s.chance(30)) v.resize(s.below(5));
        for (auto &x : v)
            if (s.below(50) == 0) x = s.pick({NaN, INF, -INF});
        what = "dirty";
        break;
    }
    case 7: { // sorted, drifting
        f = gen_family(s, true);
        v = gen_batch(s, f, n);
        std::sort(v.begin(), v.end());
        if (s.chance(50)) std::reverse(v.begin(), v.end());
        what = "sorted";
        break;
    }
    }
    return v;
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    Cfg cfg = gen_cfg(s, 100);
    Family f;
    std::string what;
    bool regular;
    Det d;
    REQUIRE(d.init(cfg) == 0, "valid configuration refused: %s", show(cfg).c_str());
    maybe_used(s, {{&d.s, 1.0}}, c);
    auto batch = train(s, f, what, regular);
    int fr = d.fit(batch);
    c.describe("%s, %s batch of %zu (scale %g offset %g), fit -> %d, steps:", show(cfg).c_str(), what.c_str(), batch.size(), f.scale, f.off, fr);
    c.label(what == "constant" || what == "dirty" || what == "sorted" ? what + " batch" : regular ? "regular batch" : "tied batch");
    // the return code tells whether there are thresholds
    bool et_nan = std::isnan(d.s.excess_threshold), at_nan = std::isnan(d.s.anomaly_threshold);
    if (et_nan)
        REQUIRE(fr == -ERR_EXCESS_THRESHOLD_IS_NAN, "fit returned %d although the excess threshold is NaN", fr);
    else if (at_nan)
        REQUIRE(fr == -ERR_ANOMALY_THRESHOLD_IS_NAN, "fit returned %d although the anomaly threshold is NaN", fr);
    else
        REQUIRE(fr == 0, "fit returned %d although both thresholds are numbers (%s)", fr, show(d.s).c_str());
    if (what == "constant") REQUIRE(fr != 0, "fit succeeded on a constant batch (no excess at all): %s", show(d.s).c_str());
    if (batch.size() < 5) REQUIRE(fr != 0, "fit succeeded on %zu values: %s", batch.size(), show(d.s).c_str());
    if (regular && d.s.Nt >= 2 && batch.size() >= 5) {
        c.label("regular batch with excesses");
        REQUIRE(fr == 0, "fit failed (%d) on %zu regular values with %lu excesses: %s", fr, batch.size(), d.s.Nt, show(d.s).c_str());
    }
    if (fr != 0) {
        c.label("fit reported an error");
        return;
    }
    if (what == "dirty") return; // finite data only
    judge(d.s, cfg, "after the fit", c);
    maybe_age(s, {&d.s}, c);
    // hostile finite streams
    unsigned steps = 0, exc = 0, blocks = 0;
    double last = d.s.excess_threshold;
    std::string modes;
    while (blocks < 12 && (blocks == 0 || s.below(5) != 0)) {
        blocks++;
        unsigned mode = s.below(12), len = 1 + s.below(s.chance(10) ? 600 : 40);
        Rng r(s.seed());
        double up = cfg.low ? -1 : 1, base = last, stepsz = f.scale * std::pow(10.0, 12 * s.unit() - 6);
        double big = std::pow(10.0, -12 + 24 * s.unit());
        c.describe(" [mode %u x%u]", mode, len);
        for (unsigned i = 0; i < len; i++) {
            double et = d.s.excess_threshold, at = d.s.anomaly_threshold, x;
            switch (mode) {
            default: x = f.draw(r); break;
            case 1: x = gen_step(r, d.s, f, true); break;
            case 2: x = et; break;                                  // zero excesses
            case 3: x = base; break;                                // the same value again and again
            case 4: x = base + up * stepsz * (i + 1); break;        // drift outwards
            case 5: x = et + up * big * r.unit(); break;            // excesses of another magnitude
            case 6: x = r.chance(50) ? et + up * big : et; break;   // two values
            case 7: x = r.pick({LIMIT, -LIMIT, 0.0, 1.0, -1.0, 1e-12, -1e-12, 5e-324, -5e-324, 1e-300}); break;
            case 8: x = std::isinf(at) ? et + up * big : at; break; // right at the threshold
            case 9: x = et + (std::isinf(at) ? up * big : (at - et) * r.unit()); break;
            case 10: x = r.chance(20) ? et + up * LIMIT * r.unit() : et + up * f.scale * r.unit(); break;
            case 11: x = std::nextafter(et, up * INF); break;       // smallest possible excesses
            }
            if (!std::isfinite(x)) x = f.draw(r);
            x = clampv(x);
            last = x;
            int v = spot_step(&d.s, x);
            steps++;
            if (v == EXCESS) exc++;
            std::string when = fmt("after step %u (%.17g -> %d)", steps, x, v);
            REQUIRE(v == NORMAL || v == EXCESS || v == ANOMALY, "%s: not a verdict", when.c_str());
            if (v == EXCESS) judge(d.s, cfg, when.c_str(), c);
        }
        c.label(fmt("stream mode %u", mode));
    }
    judge(d.s, cfg, "at the end", c);
    if (exc >= 5) c.nontrivial();
}
const Prop PROP = {"C20",
                   "generated configuration; batch regular, tied, constant, sorted or with NaN/infinite entries; then blocks of hostile finite values "
                   "(same value, thresholds themselves, drift, other magnitudes, two values, up to 1e12); after every excess no NaN, no negative "
                   "scale, anomaly threshold not on the bulk side; non-trivial: at least five excesses were absorbed after a successful fit",
                   run, nullptr};
