// C08: quantile and probability follow the generalised Pareto tail.
#include "common.hpp"

// relative error the library's log/exp allow for the survival function
static LD prob_rel_tol(LD g, LD sg, LD d) {
    if (g == 0) return 1e-12L + 4e-16L * fabsl(d / sg);
    LD r = d * g / sg, t = 1 + r, l = fabsl(logl(t));
    LD el = (t >= 0.75L && t <= 1.25L) ? 1e-14L * fminl(1, l * 1e3L) + 4e-16L : 1e-10L + 1e-14L * l;
    // rounding of 1 + r, with r itself rounded
    LD er = (4e-16L * (1 + fabsl(r))) / t;
    return (el + er) / fabsl(g) + 4e-16L * l / fabsl(g) + 1e-12L;
}

struct Model {
    double g, sg, s;
};
static Model gen_model(Src &s) {
    Model m;
    switch (s.below(6)) {
    case 0: m.g = 0; break;
    case 1: m.g = s.unit() * 2 - 1; break;
    case 2: m.g = s.pick({0.5, -0.5, 1.0, -1.0, 0.1, -0.1, 2.0, -2.0, 0.25, -0.25}); break;
    case 3: m.g = (s.chance(50) ? 1 : -1) * std::pow(10.0, -12 * s.unit()); break;
    case 4: m.g = s.unit() * 10 - 5; break;
    default: m.g = -s.unit(); break;
    }
    m.sg = s.chance(50) ? std::pow(10.0, s.unit() * 12 - 6) : 1.0;
    m.s = s.chance(60) ? s.pick({0.02, 0.1, 0.05, 0.5, 1.0, 0.002}) : s.unit() + 1e-6;
    if (m.s > 1) m.s = 1;
    return m;
}

static void judge(const Model &m, Src &s, Ctx &c, double (*Q)(void *, double), double (*P)(void *, double), void *u, double round_at) {
    // Q(q): distance beyond the threshold; P(d): probability; round_at: rounding of the mapping to data space
    double q;
    switch (s.below(20)) {
    default: q = m.s * s.unit(); break;
    case 7:
    case 8:
    case 9:
    case 10:
    case 11:
    case 12: q = m.s * std::pow(10.0, -10 * s.unit()); break;
    case 13:
    case 14:
    case 15:
    case 16:
    case 17: q = m.s * (1 - s.unit() * 1e-3); break;
    case 18: q = m.s + (1 - m.s) * s.unit(); break; // in the bulk: the same formula
    case 19: q = m.s * std::pow(10.0, -280 * s.unit()); break;
    }
    if (!(q > 0)) q = m.s / 2;
    LD w = ref_quantile(m.s, m.g, m.sg, q), tol = 2 * quantile_tol(m.s, m.g, m.sg, q) + round_at;
    double z = Q(u, q);
    c.describe(" Q(%.9g)=%.17g", q, z);
    bool zok = false;
    if (std::isfinite((double)w) && w < 1e290L && tol < 0.01L * (fabsl(w) + m.sg)) {
        REQUIRE(fabsl((LD)z - w) <= tol, "gamma=%.17g sigma=%.17g fraction=%.17g: quantile(%.17g) is %.17g beyond the threshold, the tail law gives %.20Lg +- %.2Lg",
                m.g, m.sg, m.s, q, z, w, tol);
        zok = true;
        c.label("quantile judged");
    }
    double d;
    double end = m.g < 0 ? -m.sg / m.g : INF;
    switch (s.below(5)) {
    case 0: d = m.sg * s.unit() * 5; break;
    case 1: d = 0; break;
    case 2: d = m.sg * std::pow(10.0, 8 * s.unit() - 4); break;
    case 3: d = std::isfinite(end) ? end * (1 - std::pow(10.0, -8 * s.unit())) : m.sg; break;
    default: d = std::isfinite(end) ? end * (1 + 1e-9 + std::pow(10.0, 6 * s.unit() - 6)) : m.sg * 3; break;
    }
    double p = P(u, d);
    c.describe(" P(+%.9g)=%.17g", d, p);
    LD wp = ref_survival(m.s, m.g, m.sg, d);
    if (d > end * (1 + 1e-10)) {
        if (round_at < 1e-12 * d) {
            REQUIRE(p == 0, "gamma=%.17g sigma=%.17g: probability beyond the endpoint %.17g (at %.17g) is %.17g, not zero", m.g, m.sg, end, d, p);
            c.label("beyond the endpoint");
        }
    } else {
        LD t = prob_rel_tol(m.g, m.sg, d);
        // the mapping to data space moves d by round_at
        LD slope = round_at / (m.sg + m.g * d);
        t += fabsl(slope) * 2;
        if (t < 0.02L && wp > 1e-290L) {
            REQUIRE(fabsl((LD)p - wp) <= 2 * t * wp, "gamma=%.17g sigma=%.17g fraction=%.17g: probability of exceeding by %.17g is %.17g, the tail law gives %.20Lg (rel. tolerance %.2Lg)",
                    m.g, m.sg, m.s, d, p, wp, 2 * t);
            c.label("probability judged");
        } else if (wp <= 1e-290L && t < 0.02L)
            REQUIRE(p >= 0 && p < 1e-280, "probability %.17g where the tail law gives %.3Lg", p, wp);
        REQUIRE(p >= 0 && p <= m.s * 1.000001, "probability %.17g outside [0, fraction of excesses %.17g]", p, m.s);
    }
    if (d == 0) REQUIRE(near(p, m.s, 1e-12), "probability at the excess threshold is %.17g, the fraction of excesses %.17g", p, m.s);
    // inverse
    if (zok && z > 0) {
        double back = P(u, z);
        LD dz = tol / (m.sg + (LD)m.g * z); // relative change of the survival for an error tol in z
        LD t = prob_rel_tol(m.g, m.sg, z) + 2 * fabsl(dz) + 1e-12L;
        if (m.sg + (LD)m.g * z > 0 && t < 0.01L) {
            REQUIRE(fabsl((LD)back - q) <= 2 * t * q, "gamma=%.17g sigma=%.17g fraction=%.17g: probability(quantile(%.17g)) = %.17g", m.g, m.sg, m.s, q, back);
            c.label("inverse judged");
        }
    }
    // monotone
    double q2 = q * (0.2 + 0.7 * s.unit());
    double z2 = Q(u, q2);
    LD tol2 = 2 * quantile_tol(m.s, m.g, m.sg, q2) + round_at;
    if (std::isfinite(z) && std::isfinite(z2) && tol2 < 1e250L)
        REQUIRE((LD)z2 - z >= -(tol + tol2), "quantile(%.17g) = %.17g is below quantile(%.17g) = %.17g", q2, z2, q, z);
    double d2 = d * (1.01 + s.unit());
    if (d2 > 0) {
        double p2 = P(u, d2);
        REQUIRE(p2 <= p * (1 + (double)std::min((LD)1.0, 4 * prob_rel_tol(m.g, m.sg, std::min(d, end * (1 - 1e-12))))) || d > end * 0.999999,
                "probability increases: %.17g at %.17g, %.17g at %.17g", p, d, p2, d2);
    }
    c.nontrivial();
    c.label(m.g == 0 ? "shape zero" : m.g > 0 ? "shape positive" : "shape negative");
    if (m.g != 0 && std::fabs(m.g) < 1e-4) c.label("shape tiny");
}

struct TailU {
    struct Tail t;
    double s;
};
static double tq(void *u, double q) { return tail_quantile(&((TailU *)u)->t, ((TailU *)u)->s, q); }
static double tp(void *u, double d) { return tail_probability(&((TailU *)u)->t, ((TailU *)u)->s, d); }
struct SpotU {
    struct Spot sp;
    double up;
};
static double sq(void *u, double q) {
    SpotU *x = (SpotU *)u;
    return x->up * (spot_quantile(&x->sp, q) - x->sp.excess_threshold);
}
static double spb(void *u, double d) {
    SpotU *x = (SpotU *)u;
    return spot_probability(&x->sp, x->sp.excess_threshold + x->up * d);
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    Model m = gen_model(s);
    unsigned k = s.below(3);
    c.describe("gamma=%.17g sigma=%.17g fraction=%.17g:", m.g, m.sg, m.s);
    if (k == 0) { // the tail alone
        TailU u;
        memset(&u, 0, sizeof u);
        u.t.gamma = m.g;
        u.t.sigma = m.sg;
        u.s = m.s;
        c.label("tail alone");
        for (int i = 0; i < 4; i++) judge(m, s, c, tq, tp, &u, 0);
        return;
    }
    SpotU u;
    Cfg cfg = gen_cfg(s, 50);
    REQUIRE(spot_init(&u.sp, cfg.q, cfg.low, cfg.disc, cfg.level, cfg.cap) == 0, "init");
    struct Fr {
        struct Spot *p;
        ~Fr() { spot_free(p); }
    } fr{&u.sp};
    u.up = cfg.low ? -1 : 1;
    if (k == 1) { // a detector whose tail is imposed
        c.label("imposed tail");
        u.sp.n = 1000 + s.below(1000000);
        u.sp.Nt = 1 + (unsigned long)(m.s * (u.sp.n - 1));
        u.sp.excess_threshold = s.chance(50) ? 0 : m.sg * (s.unit() * 20 - 10);
        u.sp.tail.gamma = m.g;
        u.sp.tail.sigma = m.sg;
    } else { // a fitted one
        Family f = gen_family(s, true);
        maybe_used(s, {{&u.sp, 1.0}}, c);
        auto b = gen_batch(s, f, 30 + s.below(800));
        if (spot_fit(&u.sp, b.data(), b.size()) != 0) {
            c.label("fit reported an error");
            return;
        }
        Stepper st(s, f, true, 60, 200);
        while (st.more()) spot_step(&u.sp, st.next(u.sp));
        m.g = u.sp.tail.gamma;
        m.sg = u.sp.tail.sigma;
        if (!(m.sg > 0) || !std::isfinite(m.g) || !std::isfinite(m.sg) || std::fabs(m.g) > 20) {
            c.label("degenerate tail");
            return;
        }
        c.label("fitted tail");
    }
    m.s = (double)u.sp.Nt / (double)u.sp.n;
    for (int i = 0; i < 4; i++) {
        // rounding when distances are mapped to and from data space: relative to the values involved
        double et = std::fabs(u.sp.excess_threshold);
        // values up to et + distance; the distance part is covered relatively
        judge(m, s, c, sq, spb, &u, 1e-15 * et);
    }
}
const Prop PROP = {"C08",
                   "a tail (shape zero, tiny, moderate or large of either sign, scale 1e-6..1e6, fraction of excesses) used alone, imposed on a "
                   "detector of either direction, or fitted; four random probabilities within the tail and four distances (zero, small, large, "
                   "close to and beyond a finite endpoint) compared with the closed formulas in long double with a conditioning-aware tolerance, "
                   "plus inverse and monotonicity; non-trivial: at least one pair was judged",
                   run, nullptr};
