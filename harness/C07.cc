// C07: the anomaly threshold is the model's q-quantile at the last update.
#include "common.hpp"

static bool judge(const struct Spot &s, const Cfg &cfg, int what, Ctx &c) {
    double up = cfg.low ? -1 : 1, et = s.excess_threshold, at = s.anomaly_threshold;
    double g = s.tail.gamma, sg = s.tail.sigma;
    double qq = spot_quantile(&s, s.q);
    const char *when = what ? "after an excess" : "after the fit";
    REQUIRE(near(qq, at, 1e-12, 1e-12 * std::fabs(at - et)), "%s: quantile(q) answers %.17g, the anomaly threshold is %.17g", when, qq, at);
    LD frac = (LD)s.Nt / (LD)s.n;
    if (cfg.q < frac) {
        c.label("q below the fraction of excesses");
        REQUIRE(up * (at - et) >= -1e-9 * (std::fabs(et) * 1e-6 + std::fabs(sg)), "%s: anomaly threshold %.17g on the bulk side of the excess threshold %.17g (%s)",
                when, at, et, show(s).c_str());
    }
    if (!(sg > 0) || !std::isfinite(g) || !std::isfinite(sg)) {
        c.label("degenerate tail (formula not judged)");
        return false;
    }
    LD want = ref_quantile(frac, g, sg, cfg.q);
    LD tol = quantile_tol(frac, g, sg, cfg.q);
    if (!std::isfinite((double)want) || !(tol < 0.01L * (fabsl(want) + sg))) {
        c.label("ill-conditioned (formula not judged)");
        return false;
    }
    LD got = (LD)up * ((LD)at - (LD)et);
    LD round = 4e-16L * (fabsl((LD)at) + fabsl((LD)et)) + 1e-300L;
    REQUIRE(fabsl(got - want) <= 2 * tol + round,
            "%s: anomaly threshold %.17g is %.17Lg beyond the excess threshold, the tail model gives %.17Lg +- %.3Lg (%s q=%.17g)", when, at,
            got, want, tol, show(s).c_str(), cfg.q);
    return true;
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    Cfg cfg = gen_cfg(s, 100);
    Family f = gen_family(s, s.chance(70));
    Det d;
    REQUIRE(d.init(cfg) == 0, "valid configuration refused: %s", show(cfg).c_str());
    maybe_used(s, {{&d.s, 1.0}}, c);
    auto batch = gen_batch(s, f, gen_size(s, 1000));
    int fr = d.fit(batch);
    c.describe("%s, %s batch of %zu (scale %g offset %g), fit -> %d, steps:", show(cfg).c_str(), f.name(), batch.size(), f.scale, f.off, fr);
    if (fr != 0) {
        c.label("fit reported an error");
        return;
    }
    unsigned judged = judge(d.s, cfg, 0, c), steps = 0, exc = 0, normals = 0;
    maybe_age(s, {&d.s}, c);
    Stepper st(s, f, true, 200);
    while (st.more()) {
        double x = st.next(d.s);
        if (std::fabs(x) > 1e30) continue;
        double before = d.s.anomaly_threshold;
        int r = spot_step(&d.s, x);
        steps++;
        if (steps <= 12) c.describe(" %.9g->%d", x, r);
        if (r == EXCESS) {
            exc++;
            if (normals) c.label("excess after normal values");
            judged += judge(d.s, cfg, 1, c);
        } else {
            normals += r == NORMAL;
            REQUIRE(same(before, d.s.anomaly_threshold), "a verdict %d moved the anomaly threshold from %.17g to %.17g", r, before,
                    d.s.anomaly_threshold);
        }
    }
    c.label(cfg.low ? "lower tail" : "upper tail");
    if (judged >= 2 && exc) c.nontrivial();
}
const Prop PROP = {"C07",
                   "generated configuration, batch and finite stream; after the fit and every excess the threshold is compared with the quantile "
                   "query and with the closed formula of the published tail (extended precision, tolerance from the conditioning); non-trivial: "
                   "the formula was judged at least twice, once after an excess",
                   run, nullptr};
