// C13: determinism, independence of detectors (interleaved or in threads), pure queries.
#include "common.hpp"
#include <pthread.h>

struct Op {
    int kind; // 0 fit, 1 step
    double x;
    std::vector<double> batch;
};
struct Script {
    Cfg cfg;
    std::vector<Op> ops;
};
struct Trace {
    std::vector<int> rc;
    std::vector<double> vals;
    void state(const struct Spot &s) {
        vals.insert(vals.end(), {s.anomaly_threshold, s.excess_threshold, s.tail.gamma, s.tail.sigma, (double)s.n, (double)s.Nt, s.tail.peaks.e,
                                 s.tail.peaks.e2, s.tail.peaks.min, s.tail.peaks.max});
    }
};
static void apply(struct Spot *sp, const Op &o, Trace &t) {
    t.rc.push_back(o.kind == 0 ? spot_fit(sp, o.batch.data(), o.batch.size()) : spot_step(sp, o.x));
    t.state(*sp);
}
static Trace solo(const Script &sc) {
    Det d;
    Trace t;
    t.rc.push_back(d.init(sc.cfg));
    for (auto &o : sc.ops) apply(&d.s, o, t);
    for (double x : window(d.s)) t.vals.push_back(x);
    return t;
}
static std::string cmp(const Trace &a, const Trace &b) {
    for (size_t i = 0; i < a.rc.size() && i < b.rc.size(); i++)
        if (a.rc[i] != b.rc[i]) return fmt("result of operation %zu: %d vs %d", i, a.rc[i], b.rc[i]);
    if (a.vals.size() != b.vals.size()) return "different amounts of state";
    for (size_t i = 0; i < a.vals.size(); i++)
        if (!same(a.vals[i], b.vals[i])) return fmt("state after operation %zu (field %zu): %.17g vs %.17g", i / 10, i % 10, a.vals[i], b.vals[i]);
    return "";
}
static void *thread_main(void *p) {
    auto *pr = (std::pair<const Script *, Trace> *)p;
    pr->second = solo(*pr->first);
    return nullptr;
}

// the second half of a script, in another thread
struct Half {
    const Script *sc;
    struct Spot *sp;
    size_t from;
    Trace *t;
};
static void *half_main(void *p) {
    Half *h = (Half *)p;
    for (size_t i = h->from; i < h->sc->ops.size(); i++) apply(h->sp, h->sc->ops[i], *h->t);
    return nullptr;
}
// queries of one detector from several threads
struct Ask {
    const struct Spot *sp;
    const std::vector<double> *q;
    std::vector<double> ans;
};
static void *ask_main(void *p) {
    Ask *a = (Ask *)p;
    for (double q : *a->q) a->ans.push_back(spot_quantile(a->sp, q)), a->ans.push_back(spot_probability(a->sp, q * 5));
    return nullptr;
}

// A fixed script run when the process is new.  What a detector answers must not depend on
// how much the process did before, so long cases run it again after a lot of other work.
static Script fixed;
static Trace fresh;
static void start(int, int) {
    use_libc_allocators();
    fixed.cfg.q = 0.005, fixed.cfg.level = 0.9, fixed.cfg.low = 0, fixed.cfg.disc = 1, fixed.cfg.cap = 30;
    Rng r(20240229);
    Op fit = {0, 0, {}};
    for (int i = 0; i < 300; i++) fit.batch.push_back(std::log(1 / (1 - r.unit())) - std::log(1 / (1 - r.unit())));
    fixed.ops.push_back(fit);
    for (int i = 0; i < 300; i++) fixed.ops.push_back(Op{1, (std::log(1 / (1 - r.unit())) - std::log(1 / (1 - r.unit()))) * (i % 7 == 0 ? 2 : 1), {}});
    fresh = solo(fixed);
}
static void marathon(Src &s, Ctx &c) {
    unsigned kind = s.below(5);
    size_t n = s.pick({3000ul, 70000ul, 300000ul, 1100000ul});
    Rng r(s.seed());
    Cfg cfg = fixed.cfg;
    cfg.cap = 3, cfg.disc = 0, cfg.low = s.chance(50);
    Det d;
    REQUIRE(d.init(cfg) == 0 && d.fit(fixed.ops[0].batch) == 0, "training refused");
    if (kind == 2 || kind == 3) n = std::min<size_t>(n, 70000 * 3);
    for (size_t i = 0; i < n; i++) {
        double u = r.unit();
        switch (kind) {
        case 0: spot_step(&d.s, d.s.excess_threshold + d.s.__up_down * u); break;
        case 1: spot_step(&d.s, d.s.excess_threshold - d.s.__up_down * u); break;
        case 2: {
            Det e;
            e.init(cfg);
            break;
        }
        case 3: d.fit({u, 1 - u, 2 * u, 3 - u, u * u}); break;
        default: spot_quantile(&d.s, u), spot_probability(&d.s, u * 5), spot_step(&d.s, NaN);
        }
    }
    static const char *const what[] = {"excesses", "normal values", "creations", "fits", "queries and NaN values"};
    c.describe(" then %zu %s elsewhere", n, what[kind]);
    c.label("after a lot of other work");
    Trace t = solo(fixed);
    std::string df = cmp(fresh, t);
    REQUIRE(df.empty(), "a detector gives another result after much work of other detectors than in a new process: %s", df.c_str());
}

static void run(Src &s, Ctx &c) {
    use_libc_allocators();
    if (s.below(1500) == 1499) {
        marathon(s, c);
        c.nontrivial();
        return;
    }
    unsigned nd = 2 + s.below(3);
    std::vector<Script> sc(nd);
    unsigned total = 0;
    for (auto &k : sc) {
        k.cfg = gen_cfg(s, 40);
        Family f = gen_family(s, false);
        unsigned nops = 0;
        Det d; // the generator looks at a scratch detector to place values near thresholds
        d.init(k.cfg);
        do {
            Op o;
            if (nops == 0 || s.below(25) == 24) {
                o.kind = 0;
                o.x = 0;
                o.batch = gen_batch(s, f, gen_size(s, 300));
                d.fit(o.batch);
            } else {
                o.kind = 1;
                o.x = gen_step(s, d.s, f, s.chance(80));
                spot_step(&d.s, o.x);
            }
            k.ops.push_back(o);
            nops++;
        } while (nops < 60 && s.below(25) != 0);
        total += nops;
        c.describe("[%s: %u ops] ", show(k.cfg).c_str(), nops);
    }
    std::vector<Trace> ref;
    for (auto &k : sc) ref.push_back(solo(k));
    { // repeated
        Trace t = solo(sc[0]);
        std::string df = cmp(ref[0], t);
        REQUIRE(df.empty(), "repeating the run gives another result: %s", df.c_str());
    }
    { // interleaved, with queries anywhere
        std::vector<Det> d(nd);
        std::vector<Trace> t(nd);
        std::vector<size_t> pos(nd, 0);
        for (unsigned i = 0; i < nd; i++) t[i].rc.push_back(d[i].init(sc[i].cfg));
        unsigned left = total, switches = 0, last = 99;
        while (left) {
            unsigned i = s.below(nd);
            while (pos[i] >= sc[i].ops.size()) i = (i + 1) % nd;
            if (i != last) switches++;
            last = i;
            if (s.chance(30)) { // a query of any detector
                unsigned j = s.below(nd);
                Snap b = snap(d[j].s);
                struct Spot raw = d[j].s;
                double z = s.chance(50) ? d[j].s.anomaly_threshold : s.unit() * 10;
                double q1 = spot_quantile(&d[j].s, s.chance(40) ? d[j].s.q : s.unit()), p1 = spot_probability(&d[j].s, z);
                (void)q1;
                double p2 = spot_probability(&d[j].s, z);
                REQUIRE(same(p1, p2), "the same probability query answers %.17g then %.17g", p1, p2);
                char buf[32];
                libspot_version(buf, 32);
                libspot_license(buf, 32);
                libspot_error(ERR_LEVEL_OUT_OF_BOUNDS, buf, 32);
                std::string df = diff(b, snap(d[j].s));
                REQUIRE(df.empty(), "a query changed the detector: %s", df.c_str());
                REQUIRE(memcmp(&raw, &d[j].s, sizeof raw) == 0, "a query changed the detector structure");
                c.label("queries");
            }
            apply(&d[i].s, sc[i].ops[pos[i]++], t[i]);
            left--;
        }
        for (unsigned i = 0; i < nd; i++) {
            for (double x : window(d[i].s)) t[i].vals.push_back(x);
            std::string df = cmp(ref[i], t[i]);
            REQUIRE(df.empty(), "detector %u gives another result when interleaved with others: %s", i, df.c_str());
        }
        c.label("switches between detectors", switches);
        if (switches > 3) c.nontrivial();
    }
#ifdef __SANITIZE_THREAD__
    bool threads = true;
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
    bool threads = true;
#else
    bool threads = s.chance(10);
#endif
#else
    bool threads = s.chance(10);
#endif
    if (threads) { // all at once
        std::vector<std::pair<const Script *, Trace>> job(nd);
        std::vector<pthread_t> th(nd);
        for (unsigned i = 0; i < nd; i++) {
            job[i].first = &sc[i];
            if (pthread_create(&th[i], nullptr, thread_main, &job[i])) exit(96);
        }
        for (unsigned i = 0; i < nd; i++) pthread_join(th[i], nullptr);
        for (unsigned i = 0; i < nd; i++) {
            std::string df = cmp(ref[i], job[i].second);
            REQUIRE(df.empty(), "detector %u gives another result when others run in other threads: %s", i, df.c_str());
        }
        c.label("runs in threads");
        // moved to another thread half-way, then asked by two threads at once
        Det d;
        Trace t;
        t.rc.push_back(d.init(sc[0].cfg));
        size_t cut = s.below(sc[0].ops.size() + 1);
        for (size_t i = 0; i < cut; i++) apply(&d.s, sc[0].ops[i], t);
        Half h = {&sc[0], &d.s, cut, &t};
        pthread_t p1, p2;
        if (pthread_create(&p1, nullptr, half_main, &h)) exit(96);
        pthread_join(p1, nullptr);
        for (double x : window(d.s)) t.vals.push_back(x);
        std::string df = cmp(ref[0], t);
        REQUIRE(df.empty(), "a detector moved to another thread after %zu operations gives another result: %s", cut, df.c_str());
        std::vector<double> qs;
        for (int i = 0; i < 6; i++) qs.push_back(s.unit());
        Ask a = {&d.s, &qs, {}}, b = a, e = a;
        if (pthread_create(&p1, nullptr, ask_main, &a) || pthread_create(&p2, nullptr, ask_main, &b)) exit(96);
        pthread_join(p1, nullptr);
        pthread_join(p2, nullptr);
        ask_main(&e);
        for (size_t i = 0; i < e.ans.size(); i++)
            REQUIRE(same(a.ans[i], e.ans[i]) && same(b.ans[i], e.ans[i]), "concurrent queries answer %.17g and %.17g, alone %.17g", a.ans[i], b.ans[i], e.ans[i]);
    }
}
const Prop PROP = {"C13",
                   "two to four detectors, each with a generated script (fits and steps near thresholds), run alone, again, interleaved in a generated schedule "
                   "with queries inserted, and concurrently in threads (one per detector; one detector moved between threads; one detector asked by two threads; always in the ThreadSanitizer build, 10% of the production cases); every "
                   "result and the state after every operation must be identical; a few cases run a fixed script after up to a million calls on other detectors and compare with the "
                   "same script in the new process; non-trivial: more than three switches between detectors, or such a long case",
                   run, start};
