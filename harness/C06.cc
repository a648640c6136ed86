// C06: the fitted tail is at least as likely as the exponential fit, the
// moment estimate and Grimshaw's solutions (all recomputed in long double).
#include "common.hpp"

struct Win {
    std::vector<double> x;
    LD n, mean, var, mn, mx;
};
static Win make(const std::vector<double> &v) {
    Win w;
    w.x = v;
    w.n = v.size();
    LD e = 0, e2 = 0;
    w.mn = w.mx = v[0];
    for (double a : v) e += a, w.mn = std::min(w.mn, (LD)a), w.mx = std::max(w.mx, (LD)a);
    w.mean = e / w.n;
    for (double a : v) e2 += (a - w.mean) * (a - w.mean);
    w.var = e2 / w.n;
    return w;
}
struct L {
    LD v, tol;
    bool valid;
};
// log-likelihood and a bound on the error of the library's evaluation of it
static L lik(const Win &w, LD g, LD sg) {
    L r = {0, 0, true};
    if (!(sg > 0)) return {0, 0, false};
    if (g == 0) {
        r.v = -w.n * logl(sg) - w.n * w.mean / sg;
        r.tol = w.n * 2e-10L + 1e-12L * fabsl(r.v) + 1e-11L * w.n * w.mean / sg;
        return r;
    }
    LD c = 1 + 1 / g;
    r.v = -w.n * logl(sg);
    r.tol = w.n * 2e-10L;
    for (double a : w.x) {
        LD s = 1 + g / sg * a;
        if (!(s > 0)) return {0, 0, false};
        LD l = logl(s);
        r.v -= c * l;
        r.tol += fabsl(c) * (((s < 0.75L || s > 1.25L) ? 1.1e-10L : 4e-16L) + 4e-16L * (1 + 1 / s) + 1e-14L * fabsl(l));
    }
    r.tol += 1e-12L * fabsl(r.v);
    return r;
}
static LD wfun(const Win &w, LD x, LD *margin) {
    LD u = 0, v = 0, m = 0;
    for (double a : w.x) {
        LD s = 1 + x * a;
        u += 1 / s;
        v += logl(s);
        m = std::max(m, fabsl(s - 1));
    }
    u /= w.n;
    v /= w.n;
    if (margin) *margin = fabsl(u) * ((m > 0.2L ? 1e-9L : 1e-13L)) + 1e-13L * (1 + fabsl(u) * (1 + fabsl(v)));
    return u * (1 + v) - 1;
}
static L profile(const Win &w, LD x) {
    LD g = 0;
    for (double a : w.x) {
        LD s = 1 + x * a;
        if (!(s > 0)) return {0, 0, false};
        g += logl(s);
    }
    g /= w.n;
    if (g == 0) return {0, 0, false};
    return lik(w, g, g / x);
}
// least likely of the solutions in [a, b]; false when there is no certain sign change
static bool solve(const Win &w, LD a, LD b, LD *best, LD *tol, int *count) {
    *count = 0;
    if (!(a < b) || !std::isfinite((double)a) || !std::isfinite((double)b)) return false;
    LD ma, mb, fa = wfun(w, a, &ma), fb = wfun(w, b, &mb);
    if (!(fabsl(fa) > 4 * ma) || !(fabsl(fb) > 4 * mb) || (fa > 0) == (fb > 0)) return false;
    const int G = 160;
    bool any = false;
    LD px = a, pf = fa;
    for (int i = 1; i <= G; i++) {
        LD t = (LD)i / G, x;
        if (a > 0)
            x = i == G ? b : a * powl(b / a, t); // logarithmic grid
        else {
            // dense near both ends of (a, b), both negative
            LD z = t < 0.5L ? 0.5L * powl(2 * t, 3) : 1 - 0.5L * powl(2 * (1 - t), 3);
            x = i == G ? b : a + (b - a) * z;
        }
        LD f = i == G ? fb : wfun(w, x, nullptr);
        if ((pf > 0) != (f > 0)) {
            LD lo = px, hi = x, flo = pf;
            for (int k = 0; k < 90; k++) {
                LD mid = 0.5L * (lo + hi), fm = wfun(w, mid, nullptr);
                if ((fm > 0) == (flo > 0))
                    lo = mid;
                else
                    hi = mid;
            }
            LD root = 0.5L * (lo + hi), del = 4 * (4e-8L * fabsl(root) + 1e-8L / w.mean);
            for (LD y : {root, std::max(a, root - del), std::min(b, root + del)}) {
                L p = profile(w, y);
                if (!p.valid) {
                    *best = -INFINITY;
                    return false;
                }
                if (!any || p.v - p.tol < *best) *best = p.v - p.tol, *tol = p.tol;
                any = true;
            }
            ++*count;
        }
        px = x;
        pf = f;
    }
    return any;
}

static bool judge(const std::vector<double> &x, double g, double sg, Ctx &c) {
    if (x.empty()) return false;
    Win w = make(x);
    if (!(w.mean > 1e-100L)) {
        c.label("excesses all zero or subnormal (not judged)");
        return false;
    }
    std::string desc = fmt("window of %zu (min %.9Lg mean %.9Lg max %.9Lg), fitted shape %.17g scale %.17g", x.size(), w.mn, w.mean, w.mx, g, sg);
    REQUIRE(g == g && sg == sg, "%s: the tail is undefined", desc.c_str());
    REQUIRE(sg > 0, "%s: the scale is not positive", desc.c_str());
    for (double a : x) REQUIRE(1 + (LD)g / sg * a > -1e-9L, "%s: the excess %.17g is outside the fitted law", desc.c_str(), a);
    L f = lik(w, g, sg);
    if (!f.valid) {
        c.label("endpoint on an excess (not judged)");
        return false;
    }
    LD slack = f.tol + 1e-9L * w.n;
    L e = lik(w, 0, w.mean);
    REQUIRE(f.v >= e.v - e.tol - slack, "%s: log-likelihood %.12Lg, the exponential law has %.12Lg", desc.c_str(), f.v, e.v);
    if (w.var > 1e-6L * w.mean * w.mean) {
        LD R = w.mean * w.mean / w.var, mg = 0.5L * (1 - R), ms = 0.5L * w.mean * (1 + R);
        L m = lik(w, mg, ms);
        // the estimate must be robustly inside its domain and robustly computed
        LD s_min = mg < 0 ? 1 + mg / ms * w.mx : 1;
        if (m.valid && s_min > 1e-6L && fabsl(mg) > 1e-7L && m.tol < 1) {
            c.label("moment estimate judged");
            LD cond = 1e-9L * w.n * (1 + fabsl(mg)) * (1 + 1 / s_min) * (1 + R);
            REQUIRE(f.v >= m.v - m.tol - slack - cond, "%s: log-likelihood %.12Lg, the moment estimate (%.9Lg, %.9Lg) has %.12Lg", desc.c_str(), f.v, mg, ms, m.v);
        }
    }
    if (w.var > 1e-6L * w.mean * w.mean) {
        // where solutions are looked for (closer to zero the law is the exponential one)
        LD eps = std::min(1e-5L / w.mean, 0.5L / w.mx), border = std::min(2e-8L / w.mean, 0.5L / w.mx);
        LD lo[2] = {-1 / w.mx + border, eps}, hi[2] = {-eps, 2 * (w.mean - w.mn) / (w.mn * w.mn)};
        for (int k = 0; k < (w.mn > 0 ? 2 : 1); k++) {
            LD b, t;
            int cnt;
            if (!solve(w, lo[k], hi[k], &b, &t, &cnt)) continue;
            c.label(k ? "positive Grimshaw solution judged" : "negative Grimshaw solution judged");
            if (f.v >= b - slack) continue;
            // another solution of the same equation that the scan above does not see is as good
            LD xs = (LD)g / sg, mrg, fv = xs ? wfun(w, xs, &mrg) : 1;
            if (xs && (xs > 0) == (k == 1) && fabsl(fv) < 1e-6L && cnt > 1) {
                c.label("another Grimshaw solution chosen");
                continue;
            }
            fail("%s: log-likelihood %.12Lg, a Grimshaw solution (%s shape) has at least %.12Lg", desc.c_str(), f.v, k ? "positive" : "negative", b);
        }
    }
    return true;
}

// the parameters depend only on the excesses of the window: a new tail that is
// holds the same excesses fits the same
static void fresh(const struct Tail &t, Ctx &c) {
    unsigned long k = peaks_size(&t.peaks);
    if (!k) return;
    struct Tail n;
    unsigned long cap = t.peaks.container.capacity;
    REQUIRE(tail_init(&n, cap) == 0, "tail_init(%lu)", cap);
    struct Fr {
        struct Tail *t;
        ~Fr() { tail_free(t); }
    } fr{&n};
    // same contents, same place in the ring, same summaries
    double *data = n.peaks.container.data;
    memcpy(data, t.peaks.container.data, k * sizeof *data);
    n.peaks = t.peaks;
    n.peaks.container.data = data;
    tail_fit(&n);
    c.label("fit repeated on a new tail");
    REQUIRE(same(n.gamma, t.gamma) && same(n.sigma, t.sigma), "a new tail with the same %lu excesses fits shape %.17g scale %.17g, not shape %.17g scale %.17g", k, n.gamma,
            n.sigma, t.gamma, t.sigma);
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    Family f = gen_family(s, s.chance(80), -6, 6);
    if (s.below(12) == 11) f.off = 0, f.scale = std::pow(10.0, -14 + 24 * s.unit());
    if (s.chance(50)) f.scale = std::pow(10.0, 1 + 3 * s.unit()); // where the solutions are well separated from zero
    if (s.chance(50)) { // a bare tail
        unsigned long cap = s.below(400) == 399 ? 300 + s.below(3000) : 1 + s.below(s.chance(30) ? 300 : 40);
        struct Tail t;
        REQUIRE(tail_init(&t, cap) == 0, "tail_init(%lu)", cap);
        struct Fr {
            struct Tail *t;
            ~Fr() { tail_free(t); }
        } fr{&t};
        f.off = s.chance(70) ? 0 : f.scale * s.unit();
        size_t n = 1 + s.below(cap * 2);
        auto v = gen_batch(s, f, n);
        for (double a : v) tail_push(&t, std::fabs(a));
        double ll = tail_fit(&t);
        std::vector<double> x(t.peaks.container.data, t.peaks.container.data + peaks_size(&t.peaks));
        c.describe("tail of capacity %lu after %zu %s excesses (scale %g): shape %.9g scale %.9g", cap, n, f.name(), f.scale, t.gamma, t.sigma);
        c.label("bare tail");
        fresh(t, c);
        if (judge(x, t.gamma, t.sigma, c) && x.size() >= 3) c.nontrivial();
        if (x.size() >= 2 && t.sigma > 0) {
            Win w = make(x);
            L r = lik(w, t.gamma, t.sigma);
            if (r.valid && std::isfinite(ll))
                REQUIRE(fabsl(r.v - ll) <= r.tol + 1e-9L * w.n, "the fit reports log-likelihood %.17g, it is %.17Lg", ll, r.v);
        }
        return;
    }
    Cfg cfg = gen_cfg(s, 150);
    Det d;
    REQUIRE(d.init(cfg) == 0, "valid configuration refused");
    maybe_used(s, {{&d.s, 1.0}}, c);
    auto batch = gen_batch(s, f, gen_size(s, 1000));
    int fr = d.fit(batch);
    c.describe("%s, %s batch of %zu (scale %g), fit -> %d", show(cfg).c_str(), f.name(), batch.size(), f.scale, fr);
    if (fr != 0) {
        c.label("fit reported an error");
        return;
    }
    c.label("detector");
    fresh(d.s.tail, c);
    unsigned j = judge(window(d.s), d.s.tail.gamma, d.s.tail.sigma, c), steps = 0, exc = 0;
    Stepper st(s, f, true, 60, 0);
    while (st.more()) {
        double x = st.next(d.s);
        if (std::fabs(x) > 1e15) continue;
        if (spot_step(&d.s, x) == EXCESS && exc++ < 6) fresh(d.s.tail, c), j += judge(window(d.s), d.s.tail.gamma, d.s.tail.sigma, c);
    }
    c.describe(", %u steps, %u excesses, shape %.9g scale %.9g", st.steps, exc, d.s.tail.gamma, d.s.tail.sigma);
    if (j && peaks_size(&d.s.tail.peaks) >= 3) c.nontrivial();
}
const Prop PROP = {"C06",
                   "windows of 1..300 (rarely 3300) excesses from generated families and scales, pushed into a bare tail or obtained by fitting and streaming a "
                   "detector; likelihoods recomputed in long double for the published parameters, the exponential law, the moment estimate and all "
                   "roots of Grimshaw's equation found by scanning and bisection in the search brackets (required only where the sign change is "
                   "certain); non-trivial: judged on a window of at least three excesses",
                   run, nullptr};
