// C02: memory discipline over arbitrary histories, accounting allocator,
// sanitizers, and independence of what the memory contained before.
#include "common.hpp"
#include <alloca.h>
#include <map>

static std::map<void *, size_t> g_live;
static unsigned long g_mallocs, g_frees, g_bad_frees;
static unsigned g_fail_next;
static size_t g_last;
static unsigned char g_fill;
static const size_t LIMIT = 1ul << 24;

static const size_t HUGE_LIMIT = 1ul << 36;
static bool g_generous; // grants one enormous block, on pages that all alias one file
static bool g_refused;
static Phantom g_phantom;
static void *a_malloc(size_t n) {
    g_mallocs++;
    g_last = n;
    if (g_fail_next) {
        if (g_fail_next == 1) g_fail_next = 0; // only this request
        return nullptr;
    }
    if (g_generous && n > LIMIT) {
        if (g_phantom.p || n > HUGE_LIMIT) return nullptr;
        if (!g_phantom.get(n)) { // the system would not map it
            g_refused = true;
            return nullptr;
        }
        g_live[g_phantom.p] = n;
        return g_phantom.p;
    }
    if (n > LIMIT) return nullptr;
    void *p = malloc(n);
    memset(p, g_fill, n);
    g_live[p] = n;
    return p;
}
static void a_free(void *p) {
    g_frees++;
    if (!p) return; // harmless
    auto it = g_live.find(p);
    if (it == g_live.end()) {
        g_bad_frees++;
        return;
    }
    if (p == g_phantom.p) {
        g_live.erase(it);
        g_phantom.drop();
        return;
    }
    memset(p, 0xDD, it->second);
    g_live.erase(it);
    free(p);
}

static unsigned long g_frees_b;
static void b_free(void *p) {
    g_frees_b++;
    a_free(p);
}

__attribute__((noinline)) static void scribble() {
    volatile unsigned char *p = (volatile unsigned char *)alloca(6000);
    for (int i = 0; i < 6000; i++) p[i] = g_fill;
}

// a batch in pages that cannot be written, followed by a page that cannot be read
struct ReadOnly {
    static const size_t SIZE = 1 << 16;
    char *base;
    ReadOnly() {
        base = (char *)mmap(nullptr, SIZE + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) abort();
    }
    double *put(const std::vector<double> &v) {
        mprotect(base, SIZE, PROT_READ | PROT_WRITE);
        double *x = (double *)(base + SIZE) - v.size();
        if (!v.empty()) memcpy(x, v.data(), v.size() * sizeof(double));
        mprotect(base, SIZE, PROT_READ);
        return x;
    }
};

struct Slot {
    struct Spot *sp = nullptr;
    bool created = false; // spot_init succeeded
    void *block = nullptr;
    Cfg cfg;
    Family f;
};

static void put(std::vector<double> &out, const struct Spot *s) {
    out.insert(out.end(), {s->anomaly_threshold, s->excess_threshold, s->tail.gamma, s->tail.sigma, (double)s->n, (double)s->Nt,
                           s->tail.peaks.e, s->tail.peaks.e2, s->tail.peaks.min, s->tail.peaks.max, s->q, s->level, (double)s->low,
                           (double)s->discard_anomalies});
    for (double x : window(*s)) out.push_back(x);
}

struct Cleanup {
    Slot *sl;
    ~Cleanup() {
        for (int i = 0; i < 3; i++) free(sl[i].sp);
        for (auto &kv : g_live)
            if (kv.first != g_phantom.p) free(kv.first);
        g_phantom.drop();
        g_live.clear();
    }
};

static void history(Src &s, Ctx &c, unsigned char fill, std::vector<double> &out, bool first) {
    g_fill = fill;
    g_mallocs = g_frees = g_bad_frees = 0;
    g_fail_next = 0;
    g_live.clear();
    set_allocators(a_malloc, a_free);
    Slot sl[3];
    Cleanup cl{sl};
    unsigned ops = 0, wraps = 0, failed = 0;
    while (ops < 60 && s.below(30) != 0) {
        ops++;
        Slot &t = sl[s.below(3)];
        unsigned op = s.below(8);
        unsigned long m0 = g_mallocs, f0 = g_frees;
        size_t live0 = g_live.size();
        scribble();
        if (!t.sp) { // create
            t.cfg = gen_cfg(s, 80);
            if (s.chance(30)) t.cfg.cap = 1 + s.below(4);
            t.f = gen_family(s, false);
            unsigned mode = s.below(8); // 6: failing allocator, 7: none
            if (s.below(20) == 19) t.cfg.cap = s.pick({0ul, (1ul << 61) + 1, ~0ul, LIMIT, (1ul << 61), (1ul << 62) + 3});
            t.sp = (struct Spot *)malloc(sizeof *t.sp);
            memset((void *)t.sp, fill, sizeof *t.sp);
            g_generous = mode == 0 && !g_phantom.p && s.below(100) == 99;
            if (g_generous) t.cfg.cap = s.pick({(1ul << 29) + 7, (1ul << 32) + 1, (1ul << 31) + 3, (1ul << 28) + 1}) + s.below(3);
            if (g_generous && first) c.label("granted an enormous capacity");
            g_refused = false;
            g_fail_next = mode == 6 ? s.chance(50) ? 1 : 2 : 0;
            if (mode == 7) set_allocators(nullptr, a_free);
            int r = spot_init(t.sp, t.cfg.q, t.cfg.low, t.cfg.disc, t.cfg.level, t.cfg.cap);
            set_allocators(a_malloc, a_free);
            g_fail_next = 0;
            bool should = mode < 6 && !g_refused && t.cfg.cap >= 1 && t.cfg.cap <= (g_generous ? HUGE_LIMIT : LIMIT) / 8;
            if (first) c.describe(" create(%s, allocator %s)->%d", show(t.cfg).c_str(), mode < 6 ? "ok" : mode == 6 ? "fails" : "none", r);
            REQUIRE(r == (should ? 0 : -ERR_MEMORY_ALLOCATION_FAILED), "creation (%s, allocator %s) returned %d", show(t.cfg).c_str(),
                    mode < 6 ? "ok" : mode == 6 ? "failing" : "missing", r);
            g_generous = false;
            out.push_back(r);
            REQUIRE(g_frees == f0, "creation released memory");
            if (r == 0) {
                REQUIRE(g_mallocs == m0 + 1, "creation made %lu allocation requests", g_mallocs - m0);
                REQUIRE(g_last >= t.cfg.cap * sizeof(double), "storage of %zu bytes for %lu excesses", g_last, t.cfg.cap);
                REQUIRE(g_live.size() == live0 + 1, "creation kept %zu blocks", g_live.size() - live0);
                t.created = true;
                put(out, t.sp);
            } else {
                failed++;
                if (first) c.label("creation refused for memory");
                REQUIRE(g_live.size() == live0, "a refused creation leaked a block");
                // it can still be freed, and that releases nothing
                spot_free(t.sp);
                REQUIRE(g_live.size() == live0 && g_bad_frees == 0, "freeing a refused detector released a foreign block");
                free(t.sp);
                t.sp = nullptr;
            }
            continue;
        }
        if (op == 0) { // free
            unsigned who = s.below(10); // 8: another release function was installed meanwhile, 9: none
            if (who == 9) {
                void *block = t.sp->tail.peaks.container.data;
                set_allocators(a_malloc, nullptr);
                spot_free(t.sp);
                set_allocators(a_malloc, a_free);
                if (first) c.describe(" free with no release function"), c.label("no release function");
                REQUIRE(g_frees == f0 && g_bad_frees == 0 && g_live.size() == live0 && g_mallocs == m0, "freeing a detector with no release function released memory");
                a_free(block);
                free(t.sp);
                t.sp = nullptr;
                t.created = false;
                continue;
            }
            g_frees_b = 0;
            if (who == 8) set_allocators(a_malloc, b_free);
            spot_free(t.sp);
            set_allocators(a_malloc, a_free);
            if (who == 8) REQUIRE(g_frees_b == 1, "the release function in force was called %lu times", g_frees_b);
            if (first) c.describe(" free");
            REQUIRE(g_bad_frees == 0, "a block was released twice or never came from the allocator");
            REQUIRE(g_frees == f0 + 1 && g_live.size() + 1 == live0, "freeing a detector made %lu releases, %zu blocks gone", g_frees - f0,
                    live0 - g_live.size());
            REQUIRE(g_mallocs == m0, "freeing a detector allocated memory");
            free(t.sp);
            t.sp = nullptr;
            t.created = false;
            continue;
        }
        if (op <= 2) { // fit on an exactly sized heap copy
            size_t n = s.below(10) == 9 ? s.below(7) : gen_size(s, 300);
            std::vector<double> v = gen_batch(s, t.f, n);
            if (s.chance(15) && n) v[s.below(n)] = s.pick({NaN, INF, -INF, 0.0, DBL_MAX, -DBL_MAX, 5e-324});
            static ReadOnly ro;
            bool constant = s.chance(40) && n * sizeof(double) <= ReadOnly::SIZE; // in read-only memory, up to its last byte
            double *x = constant ? ro.put(v) : (double *)malloc(n ? n * sizeof(double) : 1);
            if (n && !constant) memcpy(x, v.data(), n * sizeof(double));
            int r = spot_fit(t.sp, x, n);
            bool intact = n == 0 || memcmp(x, v.data(), n * sizeof(double)) == 0;
            if (!constant) free(x);
            if (first && constant) c.label("batch in read-only memory");
            if (first) c.describe(" fit(%zu %s)->%d", n, t.f.name(), r);
            REQUIRE(intact, "the fit modified the training batch");
            out.push_back(r);
        } else if (op == 3) {
            double a = spot_quantile(t.sp, s.unit()), b = spot_probability(t.sp, gen_step(s, *t.sp, t.f, false));
            out.push_back(a);
            out.push_back(b);
        } else {
            Stepper st(s, t.f, false, 80, 200);
            unsigned k = 0;
            while (st.more()) {
                double x = st.next(*t.sp);
                if (s.chance(20)) // push the window round
                    x = t.sp->excess_threshold + (t.cfg.low ? -1 : 1) * std::fabs(t.f.scale) * 1e-3 * s.unit();
                out.push_back(spot_step(t.sp, x));
                k++;
            }
            if (first) c.describe(" %u steps", k);
        }
        REQUIRE(g_mallocs == m0, "operation %u allocated memory after creation", op);
        REQUIRE(g_frees == f0, "operation %u released memory", op);
        put(out, t.sp);
        if (t.sp->Nt > t.cfg.cap) wraps++;
    }
    for (auto &t : sl)
        if (t.sp) {
            size_t live0 = g_live.size();
            spot_free(t.sp);
            REQUIRE(g_bad_frees == 0 && g_live.size() + 1 == live0, "freeing a detector at the end released %zu blocks", live0 - g_live.size());
            free(t.sp);
            t.sp = nullptr;
        }
    REQUIRE(g_live.empty(), "%zu blocks leaked", g_live.size());
    if (first) {
        if (wraps) c.label("window wrapped");
        if (wraps || failed) c.nontrivial();
        c.label("operations", ops);
    }
}

static void run(Src &s, Ctx &c) {
    size_t start = s.replay ? s.pos : s.tape.size();
    std::vector<double> a, b, d;
    c.describe("history:");
    history(s, c, 0x00, a, true);
    for (unsigned char fill : {0xFF, 0x3F}) {
        Src r(std::vector<uint64_t>(s.tape.begin() + std::min(start, s.tape.size()), s.tape.end()));
        b.clear();
        Ctx dummy;
        dummy.want_desc = false;
        history(r, dummy, fill, b, false);
        REQUIRE(a.size() == b.size(), "results depend on what the memory contained before (%zu vs %zu values)", a.size(), b.size());
        for (size_t i = 0; i < a.size(); i++)
            REQUIRE(same(a[i], b[i]), "results depend on what the memory contained before (fill 0x%02x): %.17g vs %.17g", fill, a[i], b[i]);
    }
}
const Prop PROP = {"C02",
                   "a history of up to 60 operations on three detector slots (create with working/failing/missing allocator and any capacity, "
                   "fit on an exactly sized heap batch, bursts of steps, queries, free) under an accounting allocator, run three times with "
                   "different initial contents of heap, structures and stack and compared, in a production and an ASan+UBSan build; "
                   "non-trivial: a window wrapped or an allocation was refused",
                   run, nullptr};
