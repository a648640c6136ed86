#include "engine.hpp"
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

Mirror *g_mirror = nullptr;
size_t g_mirror_cap = 0;

std::string fmt(const char *f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
void fail(const char *f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    throw Fail{b};
}
void Ctx::describe(const char *f, ...) {
    if (!want_desc) return;
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    desc += b;
}

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
static void arm(int s) { // CPU-time watchdog: a case costs milliseconds
    itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void on_hang(int) {
    static const char m[] = "HANG: no answer within the CPU budget of a case\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(97);
}
static const char *HANG_ENV = "VP_CASE_CPU_S";
static int hang_s() {
    const char *e = getenv(HANG_ENV);
    return e ? atoi(e) : 40;
}

// 0 = held, 1 = failed (message in *msg)
static int run_one(Src &s, Ctx &c, std::string *msg) {
    try {
        PROP.run(s, c);
    } catch (const Fail &f) {
        *msg = f.msg;
        return 1;
    }
    return 0;
}

#ifdef VP_LIBFUZZER
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    if (PROP.start) PROP.start(0, 1);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    // variable-length little-endian numbers: one length byte, then the bytes
    std::vector<uint64_t> t;
    for (size_t i = 0; i < size;) {
        unsigned k = data[i++] & 7;
        uint64_t x = 0;
        for (unsigned j = 0; j <= k && i < size; j++) x |= (uint64_t)data[i++] << (8 * j);
        t.push_back(x);
    }
    Src s(t);
    Ctx c;
    c.want_desc = false;
    std::string msg;
    if (run_one(s, c, &msg)) {
        if (const char *p = getenv("VP_FUZZ_OUT")) {
            if (FILE *f = fopen(p, "w")) {
                for (auto v : t) fprintf(f, "%llu\n", (unsigned long long)v);
                fclose(f);
            }
        }
        fprintf(stderr, "FAILED: %s\n", msg.c_str());
        abort();
    }
    return 0;
}
#else

static std::vector<uint64_t> load(const char *p) {
    std::vector<uint64_t> t;
    FILE *f = fopen(p, "r");
    if (!f) {
        perror(p);
        exit(96);
    }
    unsigned long long x;
    while (fscanf(f, "%llu", &x) == 1) t.push_back(x);
    fclose(f);
    return t;
}
static void save(const char *p, const std::vector<uint64_t> &t) {
    FILE *f = fopen(p, "w");
    if (!f) {
        perror(p);
        exit(96);
    }
    for (auto v : t) fprintf(f, "%llu\n", (unsigned long long)v);
    fclose(f);
}
static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (ch < 32 || ch > 126)
            o += fmt("\\u%04x", ch);
        else
            o += ch;
    }
    return o + "\"";
}

// does this tape fail (in a child process)?
static bool fails(const std::vector<uint64_t> &t, int cpu) {
    pid_t p = fork();
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        arm(cpu);
        Src s(t);
        Ctx c;
        c.want_desc = false;
        std::string m;
        _exit(run_one(s, c, &m));
    }
    int st = 0;
    waitpid(p, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> t, double budget, int cpu) {
    double end = now() + budget;
    bool progress = true;
    auto ok = [&] { return now() < end; };
    while (progress && ok()) {
        progress = false;
        for (size_t k = t.size() ? t.size() : 1; k >= 1 && ok(); k /= 2) { // delete chunks
            for (size_t i = 0; i + k <= t.size() && ok();) {
                auto u = t;
                u.erase(u.begin() + i, u.begin() + i + k);
                if (fails(u, cpu)) {
                    t = u;
                    progress = true;
                } else
                    i += k;
            }
        }
        for (size_t k = 8; k >= 1 && ok(); k /= 2) // zero chunks
            for (size_t i = 0; i + k <= t.size() && ok(); i += k) {
                auto u = t;
                bool any = false;
                for (size_t j = i; j < i + k; j++) any |= u[j] != 0, u[j] = 0;
                if (any && fails(u, cpu)) {
                    t = u;
                    progress = true;
                }
            }
        for (size_t i = 0; i < t.size() && ok(); i++) { // lower values
            uint64_t lo = 0, hi = t[i];
            int n = 0;
            while (lo < hi && ok() && n++ < 12) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto u = t;
                u[i] = mid;
                if (fails(u, cpu)) {
                    t = u;
                    hi = mid;
                    progress = true;
                } else
                    lo = mid + 1;
            }
        }
    }
    return t;
}

int main(int argc, char **argv) {
    std::map<std::string, std::string> o;
    for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    signal(SIGPROF, on_hang);
    int worker = o.count("--worker") ? atoi(o["--worker"].c_str()) : 0;
    int nworkers = o.count("--workers") ? atoi(o["--workers"].c_str()) : 1;
    if (PROP.start) PROP.start(worker, nworkers);

    if (o.count("--replay")) {
        Src s(load(o["--replay"].c_str()));
        Ctx c;
        std::string m;
        arm(hang_s());
        int r = run_one(s, c, &m);
        if (!c.desc.empty()) printf("case: %s\n", c.desc.c_str());
        if (r) printf("FAILED: %s\n", m.c_str());
        return r;
    }
    if (o.count("--shrink")) {
        auto t = load(o["--shrink"].c_str());
        double budget = o.count("--budget") ? atof(o["--budget"].c_str()) : 30;
        int cpu = o.count("--cpu") ? atoi(o["--cpu"].c_str()) : hang_s();
        save(o["--out"].c_str(), shrink(t, budget, cpu));
        return 0;
    }
    // random run
    uint64_t seed = strtoull(o["--seed"].c_str(), nullptr, 10);
    long cases = atol(o["--cases"].c_str());
    const char *out = o["--out"].c_str();
    {
        std::string mp = std::string(out) + ".tape";
        size_t cap = 1u << 20, bytes = 16 + cap * 8;
        int fd = open(mp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, bytes) < 0) return 96;
        g_mirror = (Mirror *)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g_mirror == MAP_FAILED) return 96;
        g_mirror_cap = cap;
        close(fd);
    }
    uint64_t h0 = 1469598103934665603ull;
    for (const char *p = PROP.id; *p; p++) h0 = (h0 ^ (unsigned char)*p) * 1099511628211ull;
    Ctx total;
    std::unordered_set<uint64_t> distinct;
    long done = 0, nontriv = 0;
    int rc = 0;
    std::string msg;
    for (long i = 0; i < cases; i++) {
        Rng mix(seed * 1000003ull + h0);
        uint64_t a = mix.bits();
        Rng mix2(a ^ ((uint64_t)worker << 40) ^ (uint64_t)i);
        Src s(mix2.bits());
        Ctx c;
        c.want_desc = total.samples.size() < 4;
        arm(hang_s());
        int r = run_one(s, c, &msg);
        arm(0);
        done++;
        for (auto &kv : c.labels) total.labels[kv.first] += kv.second;
        if (c.nontriv) {
            nontriv++;
            if (distinct.size() < 1000000) distinct.insert(s.hash()); // counted up to a million per worker
            if (c.want_desc && !c.desc.empty()) total.samples.push_back(c.desc.substr(0, 900));
        }
        if (r) {
            save((std::string(out) + ".fail").c_str(), s.tape);
            rc = 1;
            break;
        }
    }
    FILE *f = fopen(out, "w");
    if (!f) return 96;
    fprintf(f, "{\"done\":%ld,\"nontrivial\":%ld,\"failed\":%d,\"msg\":%s,\"rule\":%s,\"labels\":{", done,
            nontriv, rc, json_str(msg).c_str(), json_str(PROP.rule).c_str());
    bool first = true;
    for (auto &kv : total.labels) {
        fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < total.samples.size(); i++)
        fprintf(f, "%s%s", i ? "," : "", json_str(total.samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    FILE *hf = fopen((std::string(out) + ".hashes").c_str(), "wb");
    for (uint64_t h : distinct) fwrite(&h, 8, 1, hf);
    fclose(hf);
    return rc;
}
#endif
