// C11: accuracy of log, exp and pow over all doubles.
#include "common.hpp"
typedef long double LD;

static double from_bits(uint64_t b) {
    double d;
    memcpy(&d, &b, 8);
    return d;
}
static double any(Src &s) {
    switch (s.below(10)) {
    case 0: return from_bits(s.bits() | (s.below(2) << 63));
    case 1: return s.pick({0.0, -0.0, INF, -INF, NaN, 1.0, -1.0, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, -5e-324, 0.5, 2.0, 0.25, 4.0});
    case 2: { // around powers of two
        double x = std::ldexp(1.0, (int)s.range(-1074, 1023));
        long k = s.range(-3, 3);
        for (long i = 0; i < labs(k); i++) x = std::nextafter(x, k > 0 ? INF : 0);
        return x;
    }
    case 3: return std::ldexp(1 + s.unit(), (int)s.range(-1074, 1022));
    case 4: return 1 + (s.unit() - 0.5) * std::pow(10.0, -16 * s.unit());
    case 5: return (s.unit() * 2 - 1) * 800;                                   // exp range
    case 6: { // multiples of log 2
        double x = (double)s.range(-1080, 1030) * 0.69314718055994530942;
        long k = s.range(-3, 3);
        for (long i = 0; i < labs(k); i++) x = std::nextafter(x, k > 0 ? INF : -INF);
        return x;
    }
    case 7: return s.pick({709.78271289338397, 709.79, -708.39641853226408, -745.13, -745.14, 710.0, 1419.0, 1420.0, 2048.0, 2976.0, 2977.0, 3000.0, 1e5, 2.9e9, 3e9, 4e9, 9.3e12, 1e300, -1e300, -1e10, -720.0}) * (1 + (s.unit() - 0.5) * 1e-6);
    case 8: return (s.unit() - 0.5) * std::pow(10.0, -20 * s.unit());
    default: return s.unit() * std::pow(10.0, s.unit() * 12 - 6);
    }
}

static void check_log(double x) {
    double r = xlog(x);
    if (x != x || x < 0) {
        REQUIRE(r != r, "log(%.17g) = %.17g, expected NaN", x, r);
        return;
    }
    if (x == 0) {
        REQUIRE(r == -INF, "log(%g) = %.17g, expected -inf", x, r);
        return;
    }
    if (x == INF) {
        REQUIRE(r == INF, "log(inf) = %.17g", r);
        return;
    }
    LD w = logl((LD)x), a = fabsl(w);
    LD tol = 1e-10L + 1e-14L * a;
    if (x >= 0.75 && x <= 1.25) tol = 1e-14L;
    REQUIRE(fabsl((LD)r - w) <= tol, "log(%a) = %.17g, true value %.20Lg, error %.3Lg > %.3Lg", x, r, w, fabsl((LD)r - w), tol);
}
static void check_exp(double x) {
    double r = xexp(x);
    if (x != x) {
        REQUIRE(r != r, "exp(NaN) = %.17g", r);
        return;
    }
    LD w = x > 11000 ? (LD)INF : x < -11000 ? 0.0L : expl((LD)x);
    if (w > (LD)DBL_MAX * (1 + 1e-12L)) {
        REQUIRE(r == INF || (w < (LD)DBL_MAX * (1 + 1e-11L) && r > DBL_MAX / 2), "exp(%.17g) = %.17g, expected inf", x, r);
        return;
    }
    if (w > (LD)DBL_MAX * (1 - 1e-11L) && r == INF) return;
    if (w < (LD)DBL_MIN) {
        REQUIRE(r >= 0 && r <= DBL_MIN * (1 + 1e-9), "exp(%.17g) = %.17g, expected at most %.17g", x, r, DBL_MIN);
        return;
    }
    REQUIRE(fabsl((LD)r - w) <= 1e-12L * w, "exp(%a = %.17g) = %.17g, true value %.20Lg, relative error %.3Lg", x, x, r, w, fabsl((LD)r - w) / w);
}
static void check_pow(double a, double b, Ctx &c) {
    double r = xpow(a, b);
    if (a != a || b != b || a < 0) {
        REQUIRE(r != r, "pow(%.17g, %.17g) = %.17g, expected NaN", a, b, r);
        return;
    }
    if (!(a > 0) || std::isinf(a) || std::isinf(b)) {
        if (a == 0 && std::isfinite(b) && b != 0) REQUIRE(r == (b > 0 ? 0 : INF), "pow(0, %.17g) = %.17g", b, r);
        if (a == INF && std::isfinite(b) && b != 0) REQUIRE(r == (b > 0 ? INF : 0), "pow(inf, %.17g) = %.17g", b, r);
        return;
    }
    LD l = logl((LD)a), y = b * l;
    LD el = 1e-10L + 1e-14L * fabsl(l);
    if (a >= 0.75 && a <= 1.25) el = 1e-14L;
    LD rel = fabsl((LD)b) * el + 4e-16L * fabsl(y) + 1e-12L;
    if (rel > 0.01L) {
        c.label("pow too ill-conditioned (not judged)");
        return;
    }
    if (y > 709.7L || y < -708.3L) {
        if (y > 710.5L) REQUIRE(r == INF, "pow(%.17g, %.17g) = %.17g, expected inf", a, b, r);
        if (y < -709.0L) REQUIRE(r >= 0 && r < 1e-307, "pow(%.17g, %.17g) = %.17g, expected underflow", a, b, r);
        return;
    }
    LD w = expl(y);
    REQUIRE(fabsl((LD)r - w) <= 2 * rel * w, "pow(%.17g, %.17g) = %.17g, true value %.20Lg, relative error %.3Lg > %.3Lg", a, b, r, w,
            fabsl((LD)r - w) / w, 2 * rel);
}

static void one(Src &s, Ctx &c) {
    double x = any(s);
    unsigned k = s.below(3);
    double m = std::fabs(x);
    const char *cls = m != m ? "NaN" : (std::isinf(x) || x == 0) ? "zero or infinite" : m < DBL_MIN ? "subnormal" : "normal double";
    c.label(cls);
    if (k == 0) {
        c.describe(" log(%a = %.17g) = %.17g", x, x, xlog(x));
        check_log(x);
        check_log(m);
        c.label("log");
    } else if (k == 1) {
        c.describe(" exp(%a = %.17g) = %.17g", x, x, xexp(x));
        check_exp(x);
        c.label("exp");
    } else {
        double b = s.chance(60) ? (s.unit() - 0.5) * std::pow(10.0, s.unit() * 4 - 2) : any(s);
        c.describe(" pow(%.17g, %.17g) = %.17g", x, b, xpow(x, b));
        check_pow(x, b, c);
        check_pow(m, b, c);
        c.label("pow");
    }
    double a = any(s), w = xmin(x, a);
    if (x != x || a != a)
        REQUIRE(w != w, "min(%g, %g) = %g", x, a, w);
    else
        REQUIRE(w == (x < a ? x : a), "min(%.17g, %.17g) = %.17g", x, a, w);
    REQUIRE((is_nan(x) != 0) == (x != x), "is_nan(%a) = %d", x, is_nan(x));
    if (m == m) c.nontrivial();
}
static void run(Src &s, Ctx &c) {
    for (int i = 0; i < 16 && (i == 0 || s.below(64) != 0); i++) one(s, c);
}
const Prop PROP = {"C11",
                   "up to 16 arguments (or pairs) per case, each drawn from raw bit patterns, every binade and its edges, neighbourhoods of one, multiples of log 2, "
                   "overflow/underflow limits, subnormals and specials; log, exp or pow compared with long double libm under the stated error "
                   "bounds; non-trivial: at least one argument that is not NaN",
                   run, nullptr};
