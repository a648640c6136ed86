// C05: the window is the last excesses, and its summaries describe it.
#include "common.hpp"
#include <deque>

static void check(const struct Peaks &p, const std::deque<double> &want, double xtol, const char *where) {
    unsigned long k = peaks_size(&p);
    REQUIRE(k == want.size(), "%s: window size %lu, expected %zu", where, k, want.size());
    REQUIRE(ubend_size(&p.container) == k, "%s: container size %lu, window size %lu", where, ubend_size(&p.container), k);
    std::vector<double> a(p.container.data, p.container.data + k), b(want.begin(), want.end());
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    for (size_t i = 0; i < k; i++)
        REQUIRE(std::fabs(a[i] - b[i]) <= xtol, "%s: the window holds %.17g where the latest excesses have %.17g (rank %zu of %lu)",
                where, a[i], b[i], i, k);
    if (!k) return;
    long double e = 0, e2 = 0, m = 0;
    for (double x : b) e += x, e2 += (long double)x * x, m = std::max(m, fabsl((long double)x));
    double te = (double)(1e-11L * k * m) + k * xtol, te2 = (double)(1e-11L * k * m * m + 4 * k * m * xtol);
    REQUIRE(std::fabs(p.e - (double)e) <= te, "%s: sum %.17g, the window sums to %.17Lg", where, p.e, e);
    REQUIRE(std::fabs(p.e2 - (double)e2) <= te2, "%s: sum of squares %.17g, the window gives %.17Lg", where, p.e2, e2);
    REQUIRE(std::fabs(p.min - b.front()) <= xtol, "%s: minimum %.17g, window minimum %.17g", where, p.min, b.front());
    REQUIRE(std::fabs(p.max - b.back()) <= xtol, "%s: maximum %.17g, window maximum %.17g", where, p.max, b.back());
    double mean = peaks_mean(&p), var = peaks_var(&p);
    REQUIRE(std::fabs(mean - (double)(e / k)) <= te / k + 1e-15 * (double)m, "%s: mean %.17g, window mean %.17Lg", where, mean, e / k);
    long double v = e2 / k - (e / k) * (e / k);
    REQUIRE(std::fabs(var - (double)v) <= (te2 + 2 * (double)m * te) / k + 1e-14 * (double)(m * m), "%s: variance %.17g, window variance %.17Lg",
            where, var, v);
}

static void direct(Src &s, Ctx &c) { // the container on its own
    unsigned long cap = s.chance(60) ? 1 + s.below(8) : 1 + s.below(60);
    struct Peaks p;
    REQUIRE(peaks_init(&p, cap) == 0, "peaks_init(%lu) failed", cap);
    REQUIRE(peaks_size(&p) == 0, "a new window is not empty");
    std::deque<double> want;
    Family f = gen_family(s, false);
    unsigned n = 0, dupes = 0;
    double last = 0;
    c.describe("window of capacity %lu, %s values (scale %g offset %g), pushes:", cap, f.name(), f.scale, f.off);
    while (n < 600 && s.below(60) != 0) {
        double x;
        switch (s.below(8)) {
        case 0: x = last; dupes++; break;
        case 1: x = want.empty() ? 0 : want[s.below(want.size())]; break;
        case 2: x = want.empty() ? 1 : want.front(); break; // the one about to leave
        case 3: x = want.empty() ? 1 : *std::max_element(want.begin(), want.end()) * (1 + s.unit()); break;
        case 4: x = want.empty() ? 1 : *std::min_element(want.begin(), want.end()) * s.unit(); break;
        default: x = f.draw(s); break;
        }
        peaks_push(&p, x);
        last = x;
        n++;
        if (n <= 12) c.describe(" %.9g", x);
        want.push_back(x);
        if (want.size() > cap) want.pop_front();
        check(p, want, 0, fmt("after push %u", n).c_str());
    }
    if (n > cap) c.nontrivial(), c.label("wrapped (container)");
    peaks_free(&p);
}

static void large(Src &s, Ctx &c) { // a large container, judged now and then
    unsigned long cap = s.pick({255ul, 256ul, 500ul, 1000ul, 4095ul, 4096ul, 32767ul, 65535ul, 65536ul}) + s.below(4);
    struct Peaks p;
    REQUIRE(peaks_init(&p, cap) == 0, "peaks_init(%lu) failed", cap);
    struct Fr {
        struct Peaks *p;
        ~Fr() { peaks_free(p); }
    } fr{&p};
    std::deque<double> want;
    Family f = gen_family(s, false);
    Rng r(s.seed());
    unsigned long n = 0;
    c.describe("window of capacity %lu, %s values (scale %g offset %g)", cap, f.name(), f.scale, f.off);
    for (unsigned k = 0; k < 4; k++) {
        unsigned long len = k == 1 ? (cap > want.size() ? cap - want.size() : 0) : s.below(cap + 2); // once right to the brim
        for (unsigned long i = 0; i < len; i++) {
            double x = f.draw(r);
            peaks_push(&p, x);
            n++;
            want.push_back(x);
            if (want.size() > cap) want.pop_front();
        }
        check(p, want, 0, fmt("after %lu pushes", n).c_str());
    }
    if (n > cap) c.nontrivial(), c.label("wrapped (large container)");
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    if (s.below(1500) == 1499) {
        large(s, c);
        return;
    }
    if (s.chance(35)) {
        c.label("container alone");
        direct(s, c);
        return;
    }
    Cfg cfg = gen_cfg(s, s.chance(12) ? 300 : 40);
    Family f = gen_family(s, false);
    Det d;
    REQUIRE(d.init(cfg) == 0, "valid configuration refused: %s", show(cfg).c_str());
    maybe_used(s, {{&d.s, 1.0}}, c);
    auto batch = gen_batch(s, f, gen_size(s, 600));
    int fr = d.fit(batch);
    c.describe("%s, %s batch of %zu (scale %g offset %g), fit -> %d, steps:", show(cfg).c_str(), f.name(), batch.size(), f.scale,
               f.off, fr);
    double et = d.s.excess_threshold, up = cfg.low ? -1 : 1;
    if (!std::isfinite(et)) return;
    double big = 0;
    for (double x : batch) big = std::max(big, std::fabs(x));
    std::deque<double> want;
    unsigned long total = 0;
    for (double x : batch)
        if (up * (x - et) > 0) {
            want.push_back(up * (x - et));
            total++;
            if (want.size() > cfg.cap) want.pop_front();
        }
    double xtol = 4e-16 * std::max(big, std::fabs(et));
    check(d.s.tail.peaks, want, xtol, "after the fit");
    maybe_age(s, {&d.s}, c);
    unsigned steps = 0;
    Stepper st(s, f, true, 400);
    while (st.more()) {
        double x = st.next(d.s);
        if (std::fabs(x) > 1e100) continue;
        int r = spot_step(&d.s, x);
        steps++;
        if (steps <= 12) c.describe(" %.9g->%d", x, r);
        if (r == EXCESS) {
            big = std::max(big, std::fabs(x));
            xtol = 4e-16 * std::max(big, std::fabs(et));
            want.push_back(up * (x - et));
            total++;
            if (want.size() > cfg.cap) want.pop_front();
        }
        if (!g_big || r == EXCESS) check(d.s.tail.peaks, want, xtol, fmt("after step %u", steps).c_str());
    }
    if (total > cfg.cap && steps) c.nontrivial(), c.label("wrapped (detector)");
}
const Prop PROP = {"C05",
                   "either a bare window with generated pushes (fresh values, duplicates, copies of the element about to leave, new extremes) or "
                   "a detector with generated configuration, batch and stream; after the fit and after every push the contents are compared "
                   "with a queue model and sum, sum of squares, extremes, mean and variance recomputed in extended precision; non-trivial: "
                   "more excesses than the capacity have passed through",
                   run, nullptr};
