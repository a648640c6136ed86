// C21: a fit depends only on the configuration and its batch.
#include "common.hpp"

static std::vector<double> any_batch(Src &s, Family &f, std::string &what) {
    f = gen_family(s, s.chance(60));
    auto v = gen_batch(s, f, gen_size(s, 500));
    what = f.name();
    switch (s.below(12)) {
    default: break;
    case 10: // excesses without a usable model
        for (size_t i = 0; i < v.size(); i++)
            if (i == v.size() / 2 || s.below(30) == 0) v[i] = s.pick({INF, -INF, 1.7e308, -1.7e308, NaN});
        what = "with infinite or huge values";
        break;
    case 7: // cannot fit
        v.assign(5 + s.below(30), f.draw(s));
        what = "constant";
        break;
    case 8:
        for (size_t i = 0; i < v.size(); i++)
            if (i < 5 || s.below(20) == 0) v[i] = NaN;
        what = "NaN";
        break;
    case 9:
        v.resize(s.below(5));
        what = "tiny";
        break;
    }
    return v;
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    Cfg cfg = gen_cfg(s, 60);
    Det used, fresh;
    REQUIRE(used.init(cfg) == 0 && fresh.init(cfg) == 0, "valid configuration refused: %s", show(cfg).c_str());
    c.describe("%s: ", show(cfg).c_str());
    unsigned nbefore = 1 + s.below(3);
    bool failed = false, streamed = false, full = false;
    Family f;
    std::string what;
    for (unsigned k = 0; k < nbefore; k++) {
        unsigned n = 0;
        if (!s.chance(10)) {
            auto b = any_batch(s, f, what);
            int r = used.fit(b);
            failed |= r != 0;
            c.describe("fit(%s x%zu)->%d ", what.c_str(), b.size(), r);
        } else {
            f = gen_family(s, false);
        }
        if (s.chance(70)) {
            Stepper st(s, f, s.chance(70), 120, 500);
            while (st.more()) spot_step(&used.s, st.next(used.s)), n++;
            streamed |= n > 0;
        }
        maybe_age(s, {&used.s}, c);
        full |= peaks_size(&used.s.tail.peaks) == cfg.cap;
        c.describe("%u steps ", n);
    }
    auto b = any_batch(s, f, what);
    int ru = used.fit(b), rf = fresh.fit(b);
    c.describe("then fit(%s x%zu) -> %d", what.c_str(), b.size(), rf);
    REQUIRE(ru == rf, "the fit returns %d on the used detector, %d on a new one", ru, rf);
    std::string df = diff(snap(used.s), snap(fresh.s));
    REQUIRE(df.empty(), "after the fit the used detector differs from a new one: %s", df.c_str());
    unsigned exc = 0, n = 0;
    Stepper st(s, f, s.chance(70), 200, 600);
    while (st.more()) {
        double x = st.next(fresh.s);
        int a = spot_step(&used.s, x), e = spot_step(&fresh.s, x);
        n++;
        exc += e == EXCESS;
        REQUIRE(a == e, "step %u (%.17g) after the fit: %d on the used detector, %d on a new one", n, x, a, e);
        if (n % 8 == 0 || e == EXCESS) {
            df = diff(snap(used.s), snap(fresh.s));
            REQUIRE(df.empty(), "step %u (%.17g) after the fit: used and new detectors differ: %s", n, x, df.c_str());
        }
    }
    double z = f.draw(s);
    REQUIRE(same(spot_probability(&used.s, z), spot_probability(&fresh.s, z)), "probability(%.17g) differs", z);
    c.label(rf == 0 ? "last fit succeeds" : fmt("last fit fails with %d", rf));
    if (failed) c.label("a failed fit before");
    if (streamed) c.label("streaming before");
    if (full) c.label("window was full before");
    if (rf == 0 && (streamed || nbefore > 1)) c.nontrivial();
}
const Prop PROP = {"C21",
                   "a detector with 1-3 earlier rounds of fit (regular, tied, constant, NaN, too short) and streaming, and a new one of the same "
                   "configuration, are fitted on the same batch and fed the same stream: return code, whole state, verdicts, windows and probability "
                   "compared exactly; non-trivial: the last fit succeeds and there was streaming or several rounds before",
                   run, nullptr};
