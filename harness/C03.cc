// C03: the verdict is exactly what the published thresholds dictate.
#include "common.hpp"

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    Cfg cfg = gen_cfg(s, 64);
    Family f = gen_family(s, false);
    Det d;
    REQUIRE(d.init(cfg) == 0, "valid configuration refused: %s", show(cfg).c_str());
    maybe_used(s, {{&d.s, 1.0}}, c);
    bool fitted = !s.chance(6);
    int fr = -9999;
    if (fitted) {
        auto batch = gen_batch(s, f, gen_size(s, 800));
        fr = d.fit(batch);
        if (fr != 0) c.label("fit reported an error");
    }
    c.describe("%s, %s data (scale %g offset %g), fit -> %d, steps:", show(cfg).c_str(), f.name(), f.scale, f.off, fr);
    if (!maybe_age(s, {&d.s}, c) && s.below(200) == 199) {
        d.s.n = ~0ul - s.below(3); // about to wrap around
        c.label("counter about to wrap around");
    }
    bool finite_only = s.chance(40);
    unsigned edges = 0, steps = 0;
    Stepper st(s, f, finite_only, 400);
    while (st.more()) {
        double x = st.next(d.s);
        double at = d.s.anomaly_threshold, et = d.s.excess_threshold;
        int want;
        if (x != x)
            want = -ERR_DATA_IS_NAN;
        else if (cfg.disc && (cfg.low ? x < at : x > at))
            want = ANOMALY;
        else if (cfg.low ? x <= et : x >= et)
            want = EXCESS;
        else
            want = NORMAL;
        int r = spot_step(&d.s, x);
        steps++;
        if (steps <= 12) c.describe(" %.17g->%d", x, r);
        const char *w = want == ANOMALY ? "anomaly" : want == EXCESS ? "excess" : want == NORMAL ? "normal" : "nan";
        c.label(w);
        bool edge = false;
        if (x == at) c.label("x == anomaly threshold"), edge = true;
        if (x == et) c.label("x == excess threshold"), edge = true;
        if (x == std::nextafter(at, INF) || x == std::nextafter(at, -INF)) c.label("x one ulp from anomaly threshold"), edge = true;
        if (x == std::nextafter(et, INF) || x == std::nextafter(et, -INF)) c.label("x one ulp from excess threshold"), edge = true;
        if (std::isinf(x)) c.label("infinite x"), edge = true;
        if (at != at || et != et) c.label("undefined threshold");
        edges += edge;
        REQUIRE(r == want, "step(%.17g) returned %d, thresholds dictate %d (excess threshold %.17g, anomaly threshold %.17g, low=%d discard=%d)",
                x, r, want, et, at, cfg.low, cfg.disc);
    }
    if (edges && steps >= 3) c.nontrivial();
}
const Prop PROP = {"C03",
                   "a detector with a generated configuration, fitted (94%) on a batch of a generated family, then a stream of steps drawn "
                   "from the data and from around the current thresholds (exact, one ulp away, between, far, NaN, infinities, extremes); "
                   "every verdict is compared with the one computed from the thresholds published before the step; non-trivial: at least "
                   "three steps, at least one of them on or one ulp from a threshold or infinite",
                   run, nullptr};
