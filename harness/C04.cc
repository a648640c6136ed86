// C04: only accepted excesses change the model; anomalies and NaN leave no trace.
#include "common.hpp"

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    Cfg cfg = gen_cfg(s, 64);
    Family f = gen_family(s, false);
    Det d, twin; // the twin never sees the NaNs and the anomalies
    REQUIRE(d.init(cfg) == 0 && twin.init(cfg) == 0, "valid configuration refused: %s", show(cfg).c_str());
    maybe_used(s, {{&d.s, 1.0}, {&twin.s, 1.0}}, c);
    int fr = -9999;
    if (!s.chance(4)) {
        auto batch = gen_batch(s, f, gen_size(s, 500));
        fr = d.fit(batch);
        int fr2 = twin.fit(batch);
        REQUIRE(fr == fr2, "the same fit returned %d and %d", fr, fr2);
        REQUIRE(d.s.q == cfg.q && d.s.level == cfg.level && d.s.low == cfg.low && d.s.discard_anomalies == cfg.disc,
                "fit changed the configuration");
    }
    c.describe("%s, %s data (scale %g offset %g), fit -> %d, steps:", show(cfg).c_str(), f.name(), f.scale, f.off, fr);
    maybe_age(s, {&d.s, &twin.s}, c);
    unsigned steps = 0, rejected = 0, exc = 0, exc_after_rej = 0;
    Stepper st(s, f, false, 300);
    while (st.more()) {
        double x = st.next(d.s);
        Snap b = snap(d.s);
        int r = spot_step(&d.s, x);
        Snap a = snap(d.s);
        steps++;
        if (steps <= 12) c.describe(" %.9g->%d", x, r);
        if (r < 0 || r == ANOMALY) {
            rejected++;
            c.label(r < 0 ? "nan refused" : "anomaly discarded");
            std::string df = diff(b, a);
            REQUIRE(df.empty(), "a value answered %d (%.17g) changed the detector: %s", r, x, df.c_str());
            continue;
        }
        int r2 = spot_step(&twin.s, x);
        REQUIRE(r2 == r, "step(%.17g) gives %d, but %d in the history without its NaNs and anomalies", x, r, r2);
        std::string tw = diff(a, snap(twin.s));
        REQUIRE(tw.empty(), "the history without its NaNs and anomalies gives another detector: %s", tw.c_str());
        REQUIRE(a.n == b.n + 1, "n went from %lu to %lu on a verdict %d", b.n, a.n, r);
        REQUIRE(same(a.et, b.et), "streaming moved the excess threshold from %.17g to %.17g", b.et, a.et);
        REQUIRE(same(a.q, b.q) && same(a.level, b.level) && a.low == b.low && a.disc == b.disc && a.cap == b.cap,
                "streaming changed the configuration");
        if (r == NORMAL) {
            c.label("normal");
            std::string df = diff(b, a, true);
            REQUIRE(df.empty(), "a NORMAL value (%.17g) changed more than n: %s", x, df.c_str());
        } else {
            c.label("excess");
            exc++;
            if (rejected) exc_after_rej++;
            REQUIRE(a.Nt == b.Nt + 1, "Nt went from %lu to %lu on an EXCESS", b.Nt, a.Nt);
            unsigned long wsz = std::min<unsigned long>(b.win.size() + 1, cfg.cap);
            REQUIRE(a.win.size() == wsz, "window of %zu excesses after an EXCESS, %zu before, capacity %lu", a.win.size(),
                    b.win.size(), cfg.cap);
            // refreshed: refitting the same window again finds the same tail, and
            // the threshold is what this tail answers for q now
            struct Tail t = d.s.tail;
            tail_fit(&t);
            REQUIRE(near(t.gamma, a.gamma, 1e-9, 1e-12) && near(t.sigma, a.sigma, 1e-9),
                    "after an EXCESS the tail is (%.17g, %.17g) but its window fits (%.17g, %.17g)", a.gamma, a.sigma, t.gamma, t.sigma);
            double qq = spot_quantile(&d.s, cfg.q);
            REQUIRE(near(qq, a.at, 1e-12, 1e-12 * std::fabs(a.at - a.et)),
                    "after an EXCESS the anomaly threshold is %.17g but the model now answers %.17g for q", a.at, qq);
        }
    }
    if (exc_after_rej) c.nontrivial(), c.label("excess after a rejected value");
}
const Prop PROP = {"C04",
                   "generated configuration, batch and stream (normal values, excesses, anomalies, NaN, infinities); the full visible state is "
                   "compared before/after every step and with a twin detector that is never given the NaNs and the discarded anomalies; "
                   "non-trivial: an excess is accepted after at least one rejected value",
                   run, nullptr};
