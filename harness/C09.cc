// C09: the excess threshold is the P2 estimate; what is counted and stored.
#include "p2ref.hpp"
extern "C" void sort5(double *);

// every order pattern of five values (with ties), by index
static void pattern(uint64_t k, double v[5]) {
    static std::vector<std::vector<int>> all;
    if (all.empty()) {
        for (int a = 0; a < 3125; a++) {
            int d[5], t = a;
            unsigned used = 0;
            for (int i = 0; i < 5; i++) d[i] = t % 5, t /= 5, used |= 1u << d[i];
            if (used & (used + 1)) continue; // values used must be 0..m
            all.push_back(std::vector<int>(d, d + 5));
        }
    }
    for (int i = 0; i < 5; i++) v[i] = all[k % all.size()][i];
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    unsigned mode = s.below(10);
    if (mode == 0) { // five values: the estimate is the median whatever the level
        double v[5], m[5];
        if (s.chance(50)) {
            pattern(s.below(541), v);
            double a = s.unit() * 3 + 0.5, b = s.unit() * 10 - 5;
            for (double &x : v) x = a * x + b;
        } else {
            Family f = gen_family(s, false, -100, 100);
            for (double &x : v) x = f.draw(s);
        }
        memcpy(m, v, sizeof m);
        std::sort(m, m + 5);
        double p = s.unit(), r = p2_quantile(p, v, 5);
        double t[5];
        memcpy(t, v, sizeof t);
        sort5(t);
        c.describe("five values %g %g %g %g %g, p=%g -> %.17g", v[0], v[1], v[2], v[3], v[4], p, r);
        REQUIRE(memcmp(t, m, sizeof t) == 0 || (t[0] == m[0] && t[1] == m[1] && t[2] == m[2] && t[3] == m[3] && t[4] == m[4]),
                "the five values %.17g %.17g %.17g %.17g %.17g are not sorted properly", v[0], v[1], v[2], v[3], v[4]);
        REQUIRE(r == m[2], "estimate %.17g for five values of median %.17g", r, m[2]);
        c.label("five values");
        c.nontrivial();
        return;
    }
    Cfg cfg = gen_cfg(s, 300);
    if (mode == 2 && s.chance(40)) { // too short for an estimate: refused, and no thresholds
        Family f = gen_family(s, false);
        size_t n = s.below(5);
        std::vector<double> b;
        for (size_t i = 0; i < n; i++) b.push_back(f.draw(s));
        Det d;
        REQUIRE(d.init(cfg) == 0, "valid configuration refused");
        bool refit = s.chance(30);
        if (refit) d.fit(gen_batch(s, f, 200));
        int fr = d.fit(b);
        c.describe("%s, %s batch of %zu%s: fit -> %d", show(cfg).c_str(), f.name(), n, refit ? " after a first fit" : "", fr);
        REQUIRE(fr == -ERR_EXCESS_THRESHOLD_IS_NAN, "fit on %zu values returned %d", n, fr);
        REQUIRE(std::isnan(d.s.excess_threshold) && std::isnan(d.s.anomaly_threshold), "thresholds %g and %g after a fit on %zu values",
                d.s.excess_threshold, d.s.anomaly_threshold, n);
        REQUIRE(spot_step(&d.s, 1e300) == 0 && spot_step(&d.s, -1e300) == 0, "something is flagged after a fit on %zu values", n);
        c.label("fewer than five values");
        c.nontrivial();
        return;
    }
    Family f = gen_family(s, s.chance(75));
    size_t n = s.below(4000) == 3999 ? (s.chance(25) ? 100000 + s.below(1100000) : 65530 + s.below(20000)) : mode == 1 ? 3000 + s.below(4000) : mode <= 4 ? 5 + s.below(40) : gen_size(s, 2500);
    std::vector<double> b = gen_batch(s, f, n);
    bool shuffled = true;
    switch (s.below(8)) { // arrival orders other than random
    case 6: {           // partially sorted blocks
        size_t k = 2 + s.below(20);
        for (size_t i = 0; i < n; i += k) std::sort(b.begin() + i, b.begin() + std::min(n, i + k));
        shuffled = false;
        c.label("sorted blocks");
        break;
    }
    case 7: // trend
        for (size_t i = 0; i < n; i++) b[i] += f.scale * (double)i / n * (s.chance(50) ? 3 : -3);
        shuffled = false;
        c.label("trend");
        break;
    default: break;
    }
    Det d;
    REQUIRE(d.init(cfg) == 0, "valid configuration refused");
    int fr = d.fit(b);
    double et = d.s.excess_threshold, up = cfg.low ? -1 : 1, p = cfg.low ? 1. - cfg.level : cfg.level;
    c.describe("%s, %s batch of %zu (scale %g offset %g): excess threshold %.17g, Nt=%lu", show(cfg).c_str(), f.name(), n, f.scale, f.off, et, d.s.Nt);
    double mn = *std::min_element(b.begin(), b.end()), mx = *std::max_element(b.begin(), b.end());
    REQUIRE(fr == 0 || fr == -ERR_ANOMALY_THRESHOLD_IS_NAN, "fit on %zu finite values returned %d", n, fr);
    REQUIRE(et >= mn && et <= mx, "excess threshold %.17g outside the training range [%.17g, %.17g]", et, mn, mx);
    REQUIRE(d.s.n == n, "n=%lu after a fit on %zu values", d.s.n, n);
    unsigned long nt = 0;
    std::vector<double> ex;
    for (double x : b)
        if (up * (x - et) > 0) nt++, ex.push_back(up * (x - et));
    REQUIRE(d.s.Nt == nt, "Nt=%lu, %lu training values are beyond the threshold %.17g", d.s.Nt, nt, et);
    size_t keep = std::min<size_t>(nt, cfg.cap);
    std::vector<double> last(ex.end() - keep, ex.end()), w = window(d.s);
    std::sort(last.begin(), last.end());
    std::sort(w.begin(), w.end());
    REQUIRE(w.size() == keep, "%zu excesses stored, expected %zu", w.size(), keep);
    for (size_t i = 0; i < keep; i++)
        REQUIRE(near(w[i], last[i], 1e-12, 4e-16 * (std::fabs(et) + std::fabs(last[i]))), "stored excess %.17g, expected %.17g", w[i], last[i]);
    bool ok;
    double tol;
    double ref = RefP2::stable(p, b, &ok, &tol);
    if (ok) {
        c.label("P2 judged");
        c.nontrivial();
        REQUIRE(std::fabs(et - ref) <= tol, "excess threshold %.17g, the P2 estimate of the %.6g-quantile of these %zu values is %.17g (+- %.2g)", et, p, n, ref, tol);
    } else
        c.label("rounding decides (P2 not judged)");
    // rank, for continuous data in random order, levels with enough data on both sides
    bool cont = f.kind == 0 || f.kind == 1 || f.kind == 2 || f.kind == 4; // not the very heavy tails
    if (cont && shuffled && n >= 1000 && p * n > 20 && (1 - p) * n > 20) {
        // the estimate of one order can be off by several percent of rank; the
        // average over orders is not
        std::vector<double> w = b;
        double sum = 0;
        const int orders = 12;
        for (int k = 0; k < orders; k++) {
            double e = et;
            if (k) {
                for (size_t i = n - 1; i > 0; i--) std::swap(w[i], w[s.below(i + 1)]);
                e = p2_quantile(p, w.data(), n);
            }
            size_t below = 0;
            for (double x : b) below += x < e;
            sum += std::fabs((double)below / n - p);
        }
        c.label("rank judged");
        REQUIRE(sum / orders <= 0.04, "over %d random orders of a batch of %zu the excess threshold is %.4f away in rank from %.4f on average", orders, n, sum / orders, p);
    }
    // the estimator itself, any p
    if (s.chance(50)) {
        double p3 = s.unit(), e3 = p2_quantile(p3, b.data(), n), r3 = RefP2::stable(p3, b, &ok, &tol);
        REQUIRE(e3 >= mn && e3 <= mx, "estimate %.17g of the %.6g-quantile outside [%.17g, %.17g]", e3, p3, mn, mx);
        if (ok) REQUIRE(std::fabs(e3 - r3) <= tol, "estimate %.17g of the %.6g-quantile, reference %.17g (+- %.2g)", e3, p3, r3, tol);
    }
    // known finding: monotone arrival defeats this variant of the estimator
    if (s.below(50) == 0) {
        std::vector<double> mono(2000);
        for (size_t i = 0; i < mono.size(); i++) mono[i] = (double)i;
        double e = p2_quantile(0.98, mono.data(), mono.size());
        if (std::fabs(e - 1960) > 200) c.label("KNOWN monotone-batch");
    }
}
const Prop PROP = {"C09",
                   "batches of 0..7000 (rarely 85000) finite values from generated families (ties, scales, offsets; random, block-sorted or trending order), any level, "
                   "both directions, plus all 541 order patterns of five values; threshold compared with a reference P2 (skipped where one-ulp "
                   "perturbations change it), the training range, its rank for continuous data (averaged over 12 random orders), and the counters and stored excesses "
                   "recomputed from the batch; non-trivial: the P2 comparison was made (or the batch has fewer than five values and must be refused)",
                   run, nullptr};
