// C10: lower tail on negated data = mirror image of the upper tail.
#include "common.hpp"
#include <random>

static void same_state(const struct Spot &u, const struct Spot &l, const char *when, bool exact_needed) {
    (void)exact_needed;
#define M_(a, b, what) REQUIRE(near(a, b, 1e-12), "%s: " what " is %.17g for the upper tail and %.17g for the mirrored lower tail", when, (double)(a), (double)(b))
    REQUIRE(u.n == l.n && u.Nt == l.Nt, "%s: counters n=%lu Nt=%lu for the upper tail, n=%lu Nt=%lu for the mirrored lower tail", when, u.n, u.Nt, l.n, l.Nt);
    M_(u.excess_threshold, -l.excess_threshold, "(negated) excess threshold");
    M_(u.anomaly_threshold, -l.anomaly_threshold, "(negated) anomaly threshold");
    M_(u.tail.gamma, l.tail.gamma, "shape");
    M_(u.tail.sigma, l.tail.sigma, "scale");
    M_(u.tail.peaks.e, l.tail.peaks.e, "sum of excesses");
    M_(u.tail.peaks.min, l.tail.peaks.min, "smallest excess");
    M_(u.tail.peaks.max, l.tail.peaks.max, "largest excess");
#undef M_
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    Cfg cu = gen_cfg(s, 100), cl;
    cu.low = 0;
    cl = cu;
    cl.low = 1;
    bool five = s.chance(35);
    Family f = gen_family(s, s.chance(70));
    Det U, L;
    REQUIRE(U.init(cu) == 0 && L.init(cl) == 0, "valid configuration refused");
    maybe_used(s, {{&U.s, 1.0}, {&L.s, -1.0}}, c);
    size_t n = five ? 5 : gen_size(s, 2000);
    auto b = gen_batch(s, f, n);
    auto m = b;
    for (double &x : m) x = -x;
    int ru = U.fit(b), rl = L.fit(m);
    c.describe("%s, %s batch of %zu (scale %g offset %g), fits -> %d %d, thresholds %.9g %.9g / %.9g %.9g, steps:", show(cu).c_str(), f.name(), n, f.scale, f.off, ru, rl,
               U.s.excess_threshold, U.s.anomaly_threshold, L.s.excess_threshold, L.s.anomaly_threshold);
    double range = *std::max_element(b.begin(), b.end()) - *std::min_element(b.begin(), b.end());
    bool bitwise = U.s.excess_threshold == -L.s.excess_threshold;
    if (n == 5) REQUIRE(bitwise, "batch of five: excess thresholds %.17g and %.17g are not opposite", U.s.excess_threshold, L.s.excess_threshold);
    if (!bitwise) {
        // P2 updates its markers in one direction, so the two estimates agree only statistically
        bool cont = f.kind == 0 || f.kind == 1 || f.kind == 2 || f.kind == 4;
        std::mt19937_64 shuf(n);
        if (cont && n >= 700 && cu.level * n > 20 && (1 - cu.level) * n > 20) {
            // one order can be off by ten percent of rank (seed 1 of the larger tier found one), the average over orders cannot
            const int orders = 12;
            double sum = 0;
            auto bo = b;
            for (int o = 0; o < orders; o++) {
                std::shuffle(bo.begin(), bo.end(), shuf);
                auto mo = bo;
                for (double &x : mo) x = -x;
                U.fit(bo);
                L.fit(mo);
                double lo = std::min(U.s.excess_threshold, -L.s.excess_threshold), hi = std::max(U.s.excess_threshold, -L.s.excess_threshold);
                size_t k = 0;
                for (double x : bo) k += x > lo && x < hi;
                sum += (double)k / n;
            }
            c.label("thresholds compared by rank");
            REQUIRE(sum / orders <= 0.05, "over %d random orders of a batch of %zu the excess thresholds of the upper and of the mirrored lower tail are %.4f apart in rank on average", orders, n,
                    sum / orders);
        } else
            c.label("thresholds of the full batch not compared");
        // go on with an identical start: five of the values
        std::vector<double> b5(b.begin(), b.begin() + 5), m5(m.begin(), m.begin() + 5);
        ru = U.fit(b5);
        rl = L.fit(m5);
        REQUIRE(U.s.excess_threshold == -L.s.excess_threshold, "batch of five: excess thresholds %.17g and %.17g are not opposite", U.s.excess_threshold,
                L.s.excess_threshold);
        c.label("restarted from five values");
    } else
        c.label(five ? "five-value batch" : "full batch");
    REQUIRE(ru == rl, "the fits returned %d and %d", ru, rl);
    same_state(U.s, L.s, "after the fits", true);
    maybe_age(s, {&U.s, &L.s}, c);
    unsigned exc = 0, an = 0;
    Stepper st(s, f, false, 200, 400);
    unsigned k = 0;
    while (st.more()) {
        double x = st.next(U.s);
        bool close = near(x, U.s.anomaly_threshold, 1e-12) && U.s.anomaly_threshold != -L.s.anomaly_threshold;
        if (close) {
            c.label("within rounding of a threshold (skipped)");
            continue;
        }
        int a = spot_step(&U.s, x), b2 = spot_step(&L.s, -x);
        if (++k <= 12) c.describe(" %.9g->%d", x, a);
        REQUIRE(a == b2, "step(%.17g) -> %d for the upper tail, step(%.17g) -> %d for the mirrored lower tail", x, a, -x, b2);
        exc += a == EXCESS;
        an += a == ANOMALY;
        if (a == EXCESS || k % 7 == 0) {
            // beyond this the sums overflow and everything is NaN on both sides
            same_state(U.s, L.s, "after a step", true);
            double q = cu.q * (0.1 + s.unit()), z = gen_step(s, U.s, f, true);
            double q1 = spot_quantile(&U.s, q), q2 = spot_quantile(&L.s, q);
            REQUIRE(near(q1, -q2, 1e-12), "quantile(%.17g) is %.17g and %.17g", q, q1, q2);
            double p1 = spot_probability(&U.s, z), p2 = spot_probability(&L.s, -z);
            REQUIRE(near(p1, p2, 1e-12), "probability(%.17g) is %.17g for the upper tail, probability(%.17g) is %.17g for the lower", z, p1, -z, p2);
        }
    }
    c.label("excesses", exc);
    c.label("anomalies", an);
    if (exc) c.nontrivial();
}
const Prop PROP = {"C10",
                   "an upper and a lower detector of the same generated configuration, fitted on a batch and on its negation (thresholds compared by "
                   "rank, then both restart from five of the values, where the estimate is the median), then stepped with x and -x (data, exact thresholds, "
                   "neighbours, NaN, infinities); verdicts, counters, tail, thresholds, quantiles and probabilities compared; non-trivial: at least one excess",
                   run, nullptr};
