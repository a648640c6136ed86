// C12: equivalent float helpers change nothing.  Three instances of the library
// (own globals each): A untouched, B and C get helpers installed.
#include "common.hpp"
#include <dlfcn.h>

struct Lib {
    void *h;
    double (*log)(double), (*exp)(double), (*pow)(double, double);
    int (*init)(struct Spot *, double, int, int, double, unsigned long);
    int (*fit)(struct Spot *, const double *, unsigned long);
    int (*step)(struct Spot *, double);
    double (*quant)(const struct Spot *, double), (*prob)(const struct Spot *, double);
    void (*fr)(struct Spot *);
    void (*alloc)(malloc_fn, free_fn);
    void (*utils)(ldexp_fn, frexp_fn);
};
static Lib A, B;
template <class T> static void sym(void *h, const char *n, T &f) {
    f = (T)dlsym(h, n);
    if (!f) {
        fprintf(stderr, "no symbol %s\n", n);
        _Exit(96);
    }
}
static Lib load(const char *env) {
    Lib l;
    const char *p = getenv(env);
    l.h = p ? dlopen(p, RTLD_NOW | RTLD_LOCAL) : nullptr;
    if (!l.h) {
        fprintf(stderr, "cannot load %s: %s\n", env, dlerror());
        _Exit(96);
    }
    sym(l.h, "xlog", l.log);
    sym(l.h, "xexp", l.exp);
    sym(l.h, "xpow", l.pow);
    sym(l.h, "spot_init", l.init);
    sym(l.h, "spot_fit", l.fit);
    sym(l.h, "spot_step", l.step);
    sym(l.h, "spot_quantile", l.quant);
    sym(l.h, "spot_probability", l.prob);
    sym(l.h, "spot_free", l.fr);
    sym(l.h, "set_allocators", l.alloc);
    sym(l.h, "set_float_utils", l.utils);
    l.alloc(malloc, free);
    return l;
}
static unsigned long cl[3], cf[3];
#define HELPER(k)                                                                                  \
    static double my_ldexp##k(double x, int n) {                                                   \
        cl[k]++;                                                                                   \
        return std::ldexp(x, n);                                                                   \
    }                                                                                              \
    static double my_frexp##k(double x, int *e) {                                                  \
        cf[k]++;                                                                                   \
        return std::frexp(x, e);                                                                   \
    }
HELPER(1)
HELPER(2)
static void start(int, int) {
    A = load("VP_SO_A");
    B = load("VP_SO_B");
}
static int curl, curf; // which helper the instance B uses now: 0 built-in, 1, 2

static double arg(Src &s) {
    switch (s.below(8)) {
    case 0: {
        uint64_t b = s.bits() | (s.below(2) << 63);
        double d;
        memcpy(&d, &b, 8);
        return d;
    }
    case 1: return std::ldexp(1 + s.unit(), (int)s.range(-1074, 1022));
    case 2: return s.pick({0.0, -0.0, INF, -INF, NaN, 5e-324, DBL_MIN, DBL_MAX, 1.0, 0.5, 2.0, 709.0, -709.0, 745.0, -745.0, 1e5});
    case 3: return std::ldexp(1 + s.unit(), (int)s.range(-1074, -1000)); // subnormal and about
    case 4: return s.unit() * 1500 - 750;
    case 5: return (s.chance(50) ? 1 : -1) * s.pick({0.69, 690.0, 700.0}) * (1 + s.unit() * s.pick({1.0, 0.1, 0.02})); // exponents near 1 and near 1023
    case 6: return std::ldexp(1 + s.unit(), (int)s.range(-3, 3));
    default: return s.unit() * 10;
    }
}

static void install(Src &s, Ctx &c) {
    unsigned k = s.below(5);
    ldexp_fn l = k == 1 || k == 3 ? my_ldexp1 : k == 2 || k == 4 ? my_ldexp2 : nullptr;
    frexp_fn f = k == 1 || k == 4 ? my_frexp1 : k == 2 || k == 3 ? my_frexp2 : nullptr;
    if (s.chance(30)) l = nullptr;
    if (s.chance(30)) f = nullptr;
    B.utils(l, f);
    if (l) curl = l == my_ldexp1 ? 1 : 2;
    if (f) curf = f == my_frexp1 ? 1 : 2;
    c.describe(" set_float_utils(%s, %s)", l ? l == my_ldexp1 ? "ldexp#1" : "ldexp#2" : "null", f ? f == my_frexp1 ? "frexp#1" : "frexp#2" : "null");
    c.label(fmt("%s/%s", l ? "ldexp given" : "ldexp kept", f ? "frexp given" : "frexp kept"));
}
// the helper in force, and only it, must be the one called
static void probe() {
    unsigned long l0[3], f0[3];
    memcpy(l0, cl, sizeof l0);
    memcpy(f0, cf, sizeof f0);
    B.log(12345.678);
    B.exp(20.5);
    for (int k = 1; k < 3; k++) {
        REQUIRE((cl[k] > l0[k]) == (curl == k), "ldexp helper %d was %scalled while helper %d is in force", k, cl[k] > l0[k] ? "" : "not ", curl);
        REQUIRE((cf[k] > f0[k]) == (curf == k), "frexp helper %d was %scalled while helper %d is in force", k, cf[k] > f0[k] ? "" : "not ", curf);
    }
}

// wherever splitting off or attaching an exponent cannot be avoided, it is the helper's work
static void used(double x) {
    unsigned long l0 = cl[1] + cl[2], f0 = cf[1] + cf[2];
    double a = std::fabs(x);
    if (curl && a >= 0.75 && a <= 709.78) {
        B.exp(x);
        REQUIRE(cl[1] + cl[2] > l0, "exp(%a) did not use the ldexp helper that is installed", x);
    }
    if (curf && std::isfinite(x) && x > 0 && (x >= 2 || x < 0.25)) {
        B.log(x);
        REQUIRE(cf[1] + cf[2] > f0, "log(%a) did not use the frexp helper that is installed", x);
    }
}

static void run(Src &s, Ctx &c) {
    // start from known helpers, so that a case does not depend on the ones before it
    B.utils(my_ldexp1, my_frexp1);
    curl = curf = 1;
    c.describe("helpers #1 installed;");
    probe();
    unsigned ops = 1 + s.below(4);
    for (unsigned i = 0; i < ops; i++) {
        install(s, c);
        probe();
        for (int k = 0; k < 8; k++) {
            double x = arg(s), y = s.chance(50) ? arg(s) : s.unit() * 4 - 2;
            used(x);
            REQUIRE(same(A.log(x), B.log(x)), "log(%a): %.17g built-in, %.17g with the user's helpers", x, A.log(x), B.log(x));
            REQUIRE(same(A.exp(x), B.exp(x)), "exp(%a): %.17g built-in, %.17g with the user's helpers", x, A.exp(x), B.exp(x));
            REQUIRE(same(A.pow(x, y), B.pow(x, y)), "pow(%a, %a): %.17g built-in, %.17g with the user's helpers", x, y, A.pow(x, y), B.pow(x, y));
            if (x > 0 && x < DBL_MIN) c.label("subnormal argument");
        }
    }
    Cfg cfg = gen_cfg(s, 60);
    Family f = gen_family(s, false, -8, 8);
    struct Spot a, b;
    REQUIRE(A.init(&a, cfg.q, cfg.low, cfg.disc, cfg.level, cfg.cap) == 0 && B.init(&b, cfg.q, cfg.low, cfg.disc, cfg.level, cfg.cap) == 0, "valid configuration refused");
    struct Fr {
        struct Spot *a, *b;
        ~Fr() {
            A.fr(a);
            B.fr(b);
        }
    } fr{&a, &b};
    auto batch = gen_batch(s, f, gen_size(s, 500));
    int ra = A.fit(&a, batch.data(), batch.size()), rb = B.fit(&b, batch.data(), batch.size());
    REQUIRE(ra == rb, "fit returns %d with the built-in helpers, %d with the user's", ra, rb);
    c.describe(" %s, %s batch of %zu, fit -> %d", show(cfg).c_str(), f.name(), batch.size(), ra);
    std::string df = diff(snap(a), snap(b));
    REQUIRE(df.empty(), "after the fit: %s (built-in vs user's helpers)", df.c_str());
    Stepper st(s, f, false, 100, 200);
    unsigned exc = 0;
    while (st.more()) {
        if (s.chance(5)) install(s, c);
        double x = st.next(a);
        int r1 = A.step(&a, x), r2 = B.step(&b, x);
        REQUIRE(r1 == r2, "step(%.17g) returns %d with the built-in helpers, %d with the user's", x, r1, r2);
        if (r1 == EXCESS) {
            exc++;
            df = diff(snap(a), snap(b));
            REQUIRE(df.empty(), "after an excess: %s (built-in vs user's helpers)", df.c_str());
            double q = cfg.q * s.unit(), z = x;
            REQUIRE(same(A.quant(&a, q), B.quant(&b, q)) && same(A.prob(&a, z), B.prob(&b, z)), "queries differ with the user's helpers");
        }
    }
    if (exc) c.nontrivial();
}
const Prop PROP = {"C12",
                   "two instances of the library; the second gets generated sequences of helper installations (counting wrappers of libm's ldexp/frexp, two "
                   "distinct pairs, null for either); math results on full-range arguments and whole detector histories must be identical in both, and "
                   "exactly the helpers in force must be called; non-trivial: the history contains an excess",
                   run, start};
