// C14: the root finder.
#include "common.hpp"

struct Fn {
    int kind;
    double a, b, c, d, k; // parameters
    unsigned long calls = 0;
    std::vector<std::pair<double, double>> seen; // every evaluation made during the search
    double operator()(double x) const {
        switch (kind) {
        case 0: return k * (x - a);
        case 1: return k * (x - a) * (x - b) * (x - c);
        case 2: return k * ((x - a) * (x - a) * (x - a));
        case 3: return k * std::tanh(b * (x - a));
        case 4: return k * (std::exp(b * (x - a)) - 1);
        case 5: return k * std::atan(b * (x - a)) + 0.1 * k * std::sin(c * x);
        case 6: return k * (std::fabs(x - a) < 1e-12 ? 0 : (x > a ? 1 : -1) * std::sqrt(std::fabs(x - a)));
        case 7: return k * (std::cos(b * x) - c * x + a);
        case 8: return k * ((x - a) * (x - a) + b * b + 1e-3); // no root
        case 9: return k * std::pow(x - a, 5) + 1e-3 * k * (x - a);
        case 10: return k * (std::log1p(std::fabs(x)) * (x > 0 ? 1 : -1) - a);
        default: return x < a ? -k : k * b; // jump
        }
    }
};
static double call(double x, void *p) {
    Fn *f = (Fn *)p;
    f->calls++;
    double y = (*f)(x);
    if (f->seen.size() < 4096) f->seen.emplace_back(x, y);
    return y;
}

static const double MAXRATIO = 1e15;

static void run(Src &s, Ctx &c) {
    Fn f;
    f.kind = s.below(12);
    double sc = s.chance(50) ? std::pow(10.0, s.unit() * 8 - 4) : 1;
    f.a = sc * (s.unit() * 2 - 1);
    if (s.chance(10)) f.a *= std::pow(10.0, -14 * s.unit()); // a root near zero
    f.b = f.kind == 1 ? sc * (s.unit() * 2 - 1) : (0.1 + s.unit() * 5) / sc;
    f.c = f.kind == 1 ? sc * (s.unit() * 2 - 1) : s.unit() * 3 / (f.kind == 5 || f.kind == 7 ? 1 : sc);
    if (f.kind == 4 || f.kind == 3) f.b = std::min(f.b, 20.0 / sc);
    if (f.kind == 7) f.b = s.unit() * 3, f.a = s.unit() * 2 - 1;
    if (f.kind == 11) f.b = 0.1 + s.unit();
    if (f.kind == 10) f.a = s.unit() * 2 - 1;
    f.k = (s.chance(50) ? 1 : -1) * std::pow(10.0, s.chance(80) ? s.unit() * 8 - 4 : s.unit() * 400 - 290);
    double x1, x2;
    switch (s.below(8)) {
    case 5: // an end at a round value
        x1 = s.pick({0.0, -0.0, 1.0, -1.0, 0.5, 10.0}), x2 = f.a + (f.a - x1) * (s.unit() + (s.chance(30) ? 1e-3 : 0.1));
        break;
    case 6: // wide
        x1 = f.a - sc * std::pow(10.0, 9 * s.unit()), x2 = f.a + sc * std::pow(10.0, 9 * s.unit());
        break;
    case 7: // far from zero, narrow
        f.a = (s.chance(50) ? 1 : -1) * sc * std::pow(10.0, 9 * s.unit());
        x1 = f.a - std::fabs(f.a) * std::pow(10.0, -9 * s.unit()), x2 = f.a + std::fabs(f.a) * std::pow(10.0, -9 * s.unit());
        break;
    case 0: x1 = f.a, x2 = f.a + sc * (0.01 + s.unit()); break; // a root at the end (most kinds)
    case 1: x1 = f.a - sc * s.unit(), x2 = f.a + sc * s.unit(); break;
    case 2: x1 = -3 * sc, x2 = 3 * sc; break;
    default: x1 = sc * (s.unit() * 6 - 3), x2 = sc * (s.unit() * 6 - 3); break;
    }
    if (s.chance(40)) std::swap(x1, x2);
    double tol = s.pick({2e-8, 1e-10, 1e-6, 1e-3, 1e-12, 2e-8, 1e-14, 1e-18, 1e-25, 0.0, 0.01, 0.1, 1.0});
    double f1 = f(x1), f2 = f(x2);
    if (!std::isfinite(f1) || !std::isfinite(f2) || x1 == x2) {
        c.label("function overflows at an end (skipped)");
        return;
    }
    int found = s.pick({7, 0, 1, -3});
    double r = brent(&found, x1, x2, call, &f, tol);
    c.describe("kind %d a=%.9g b=%.9g c=%.9g k=%.9g on [%.17g, %.17g] (values %.9g, %.9g) tol=%g: found=%d root=%.17g after %lu calls", f.kind, f.a, f.b, f.c, f.k, x1, x2, f1, f2, tol,
               found, r, f.calls);
    bool same_sign = (f1 > 0 && f2 > 0) || (f1 < 0 && f2 < 0);
    REQUIRE(found == 0 || found == 1, "found=%d is neither 0 nor 1", found);
    if (same_sign) {
        c.label("same sign at both ends");
        REQUIRE(!found, "a root %.17g is reported although the function is %.9g and %.9g at the ends", r, f1, f2);
        return;
    }
    c.label(f1 == 0 || f2 == 0 ? "root at an end" : "sign change");
    c.nontrivial();
    double lo = std::min(x1, x2), hi = std::max(x1, x2);
    // how many times the bracket is wider than what has to be resolved (for the kinds whose root is a)
    bool at_a = f.kind == 0 || f.kind == 2 || f.kind == 3 || f.kind == 4 || f.kind == 6 || f.kind == 9 || f.kind == 11;
    double ratio = (hi - lo) / (4e-8 * (at_a ? std::fabs(f.a) : 0) + 0.5 * tol);
    if (!found && !(ratio < MAXRATIO)) { // may need more iterations than allowed
        c.label("gave up on an extreme tolerance");
        return;
    }
    REQUIRE(found == 1, "no root reported on [%.17g, %.17g] where the function is %.9g and %.9g (kind %d a=%.17g b=%.17g c=%.17g k=%.17g tol=%g)", x1, x2, f1, f2, f.kind, f.a, f.b, f.c,
            f.k, tol);
    double slack = 4e-16 * (std::fabs(lo) + std::fabs(hi));
    REQUIRE(r >= lo - slack && r <= hi + slack, "root %.17g outside the bracket [%.17g, %.17g]", r, lo, hi);
    // a zero or a sign change within tolerance (twice the library's convergence bound)
    double del = 2 * (2 * 2.0e-8 * std::fabs(r) + 0.5 * tol) + slack;
    double fr = f(r), g1 = f(std::max(lo, r - del)), g2 = f(std::min(hi, r + del));
    bool ok = fr == 0 || g1 == 0 || g2 == 0 || (g1 > 0) != (g2 > 0) || (fr > 0) != (g1 > 0) || (fr > 0) != (g2 > 0);
    // a function that oscillates faster than any scan: the points the search itself evaluated
    // (the other end of the last bracket lies within the convergence bound)
    for (size_t i = 0; i < f.seen.size() && !ok; i++)
        ok = std::fabs(f.seen[i].first - r) <= del && (f.seen[i].second == 0 || (f.seen[i].second > 0) != (fr > 0));
    if (!ok) { // several roots or steep ones: look closer
        for (int i = 0; i <= 400 && !ok; i++) {
            double y = f(std::min(hi, std::max(lo, r - del + 2 * del * i / 400)));
            ok = y == 0 || (y > 0) != (fr > 0);
        }
    }
    REQUIRE(ok, "reported root %.17g: the function is %.9g there and keeps its sign within %.3g (kind %d a=%.17g b=%.17g c=%.17g k=%.17g on [%.17g, %.17g] tol=%g)", r, fr, del, f.kind, f.a,
            f.b, f.c, f.k, x1, x2, tol);
}
const Prop PROP = {"C14",
                   "functions from twelve families (linear, cubic, flat, steep, transcendental, several roots, no root, a jump) with random parameters and scales, "
                   "brackets in either order (including a root at an end) and tolerances; found flag and root checked against the signs at the ends and a zero or "
                   "sign change within the tolerance; non-trivial: the signs at the ends are not strictly equal",
                   run, nullptr};
