// C01: detector creation accepts exactly the meaningful configurations.
#include "common.hpp"

static bool g_fail_alloc;
static unsigned long g_calls, g_last;
static unsigned long LIMIT = 1ul << 22; // bytes this allocator is willing to give
static const unsigned long HUGE_LIMIT = 1ul << 36;
static bool g_generous; // grants up to 64 GiB, on pages that all alias one file
static bool g_refused;
static Phantom g_phantom;
static void *a_malloc(size_t n) {
    g_calls++;
    g_last = n;
    if (g_fail_alloc) return nullptr;
    if (g_generous && n > LIMIT) {
        if (n > HUGE_LIMIT) return nullptr;
        if (!g_phantom.get(n)) g_refused = true; // the system would not map it
        return g_phantom.p;
    }
    if (n > LIMIT) return nullptr;
    return malloc(n);
}
static long g_frees;
static void a_free(void *p) {
    g_frees++;
    if (p && p == g_phantom.p)
        g_phantom.drop();
    else
        free(p);
}

static double any_double(Src &s) {
    switch (s.below(4)) {
    case 0: return s.unit() * 3 - 1;
    case 1: return s.pick({NaN, INF, -INF, DBL_MAX, -DBL_MAX, 5e-324, -5e-324, DBL_MIN, -0.0, 1e-300, 2.0, -1.0});
    case 2: {
        uint64_t b = s.bits() | (s.below(2) << 63);
        double d;
        memcpy(&d, &b, 8);
        return d;
    }
    default: return s.pick({1e-4, 1.0, 0.0, 0.5, 0.98});
    }
}
static double nudge(Src &s, double x) {
    unsigned k = s.below(5);
    if (k == 1) return std::nextafter(x, INF);
    if (k == 2) return std::nextafter(x, -INF);
    if (k == 3) return x * (1 + 1e-9);
    if (k == 4) return x * (1 - 1e-9);
    return x;
}

static void run(Src &s, Ctx &c) {
    double level, q;
    switch (s.below(5)) {
    case 0: level = s.pick({0.98, 0.9, 0.75, 0.5, 0.0, 0.25, 0.999}); break;
    case 1: level = s.unit(); break;
    case 2: level = nudge(s, s.pick({0.0, 1.0})); break;
    default: level = any_double(s); break;
    case 3: level = s.unit(); break;
    }
    switch (s.below(5)) {
    case 0: q = (1 - level) * s.unit(); break;
    case 1: q = nudge(s, 1 - level); break;
    case 2: q = nudge(s, 0.0); break;
    case 3: q = any_double(s); break;
    default: q = (1 - level) * std::pow(10.0, -s.unit() * 20); break;
    }
    int low = s.pick({0, 1, 2, -1, 256, 65536, 2147483647, (int)-2147483648ll, 1 << 24});
    int disc = s.pick({0, 1, 2, -1, 256, 65536, 2147483647, (int)-2147483648ll, 1 << 24});
    unsigned long cap;
    switch (s.below(5)) {
    case 0:
        cap = s.chance(70) ? 1 + s.below(500) : s.chance(50) ? s.pick({600ul, 800ul, 1000ul, 1024ul, 2000ul, 2048ul, 4096ul, 5000ul, 8192ul, 10000ul, 20000ul, 32768ul, 65535ul, 65536ul, 100000ul, 131072ul}) : 500 + s.below(30000);
        break;
    case 1: cap = s.pick({0ul, 1ul, 2ul}); break;
    case 2: cap = LIMIT / 8 + s.below(3) - 1; break;
    case 3: cap = (~0ul / 8) + s.below(5) - 2; break; // around the byte-size overflow
    default: cap = s.pick({~0ul, ~0ul - 1, 1ul << 61, (1ul << 61) + 1, (1ul << 61) + 200, 1ul << 63, (3ul << 61) + 7, 1ul << 40, (1ul << 32), (1ul<<32)+5}); break;
    }
    unsigned mode = s.below(4); // 0,1: working allocator, 2: failing, 3: none
    g_fail_alloc = mode == 2;
    g_calls = g_frees = 0;
    g_phantom.drop();
    g_generous = g_refused = false;
    if (mode == 0 && s.below(1000) == 999) {
        g_generous = true;
        cap = s.pick({(1ul << 32) + 3, (1ul << 31) + 1, (1ul << 29) + 7, 1ul << 32, 1ul << 29, (1ul << 33) - 1, (1ul << 32) - 1}) + s.below(5);
        c.label("granted an enormous capacity");
    }
    if (mode == 3)
        set_allocators(s.chance(50) ? nullptr : nullptr, s.chance(50) ? a_free : nullptr);
    else
        set_allocators(a_malloc, a_free);

    struct Spot sp;
    memset(&sp, (int)s.below(256), sizeof sp);
    int r = spot_init(&sp, q, low, disc, level, cap);

    // the bound on q, as rounded and as written: judged where they agree (always when level >= 1/2)
    bool level_ok = level >= 0 && level < 1;
    bool f1 = q < 1 - level, f3 = (__float128)q + (__float128)level < 1;
    bool ambiguous = level_ok && q > 0 && f1 != f3;
    bool q_ok = q > 0 && f1;
    bool mem_ok = mode < 2 && !g_refused && cap >= 1 && cap <= (g_generous ? HUGE_LIMIT : LIMIT) / 8;
    c.describe("spot_init(q=%a, low=%d, discard=%d, level=%a, max_excess=%lu) allocator=%s -> %d", q, low, disc, level,
               cap, mode < 2 ? "ok" : mode == 2 ? "failing" : "none", r);
    int want = !level_ok ? -1001 : !q_ok ? -1002 : !mem_ok ? -1000 : 0;
    const char *names[] = {"memory", "level", "q"};
    c.label(want ? fmt("refused: %s", names[-want - 1000]) : "accepted");
    if (ambiguous) {
        c.label("rounding-ambiguous bound (not judged)");
        if (r == 0) spot_free(&sp);
        return;
    }
    bool edge = level == 0 || level == 1 || q == 1 - level || q != q || level != level || std::fabs(q - (1 - level)) < 1e-6 ||
                cap == 0 || cap > LIMIT / 8 || g_generous || want == 0 || mode >= 2;
    if (edge) c.nontrivial();
    REQUIRE(r == want, "spot_init(q=%.17g low=%d discard=%d level=%.17g max_excess=%lu, allocator mode %u) returned %d, expected %d",
            q, low, disc, level, cap, mode, r, want);
    if (r == 0) {
        REQUIRE(same(sp.q, q) && same(sp.level, level), "created detector has q=%.17g level=%.17g instead of %.17g %.17g", sp.q,
                sp.level, q, level);
        REQUIRE(sp.low == (low != 0) && sp.discard_anomalies == (disc != 0),
                "flags low=%d discard=%d requested, detector has %d %d", low, disc, sp.low, sp.discard_anomalies);
        REQUIRE(sp.n == 0 && sp.Nt == 0, "new detector has n=%lu Nt=%lu", sp.n, sp.Nt);
        REQUIRE(std::isnan(sp.anomaly_threshold) && std::isnan(sp.excess_threshold), "new detector has thresholds %g %g",
                sp.anomaly_threshold, sp.excess_threshold);
        REQUIRE(std::isnan(sp.tail.gamma) && std::isnan(sp.tail.sigma), "new detector has a tail: gamma=%g sigma=%g",
                sp.tail.gamma, sp.tail.sigma);
        REQUIRE(sp.tail.peaks.container.capacity == cap, "capacity %lu instead of %lu", sp.tail.peaks.container.capacity, cap);
        REQUIRE(peaks_size(&sp.tail.peaks) == 0, "new detector holds %lu excesses", peaks_size(&sp.tail.peaks));
        REQUIRE(g_calls >= 1 && g_last >= cap * 8, "storage of %lu bytes requested for %lu excesses", g_last, cap);
        spot_free(&sp);
    }
    // every later creation is unaffected by a refusal
    g_fail_alloc = g_generous = false;
    set_allocators(a_malloc, a_free);
    struct Spot t;
    int r2 = spot_init(&t, 1e-3, 0, 1, 0.9, 10);
    REQUIRE(r2 == 0, "a valid creation after it returned %d", r2);
    spot_free(&t);
}
const Prop PROP = {"C01",
                   "one creation with q, level, flags, capacity and allocator behaviour drawn over their full ranges with bias to the "
                   "boundaries (0, 1, 1-level and neighbouring doubles, NaN, infinities, raw bit patterns, capacities around 0, the "
                   "allocator limit and the byte-size overflow); non-trivial: accepted, or within 1e-6 of a bound, or NaN, or decided by "
                   "the capacity or the allocator",
                   run, nullptr};
