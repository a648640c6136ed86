// Choice-tape property-testing engine: every random decision of a case is a
// number drawn from a "tape".  Random generation records the tape, replay and
// shrinking feed a given one (0 is the simplest choice and what is read past
// the end), libFuzzer supplies its bytes as one.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

struct Rng { // splitmix64 / xorshift: expansion of a seed drawn from the tape
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed + 0x1234567) { // scrambled: near seeds must not give shifted copies
        s = bits() ^ (seed << 32);
    }
    uint64_t bits() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : bits() % n; }
    double unit() { return (double)(bits() >> 11) * 0x1p-53; }
    bool chance(unsigned pct) { return below(100) >= 100 - pct; }
    template <class T> T pick(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
};

struct Mirror { // current tape, kept in a shared mapping to survive a crash
    uint64_t magic, count;
    uint64_t v[1];
};
extern Mirror *g_mirror;
extern size_t g_mirror_cap;

class Src {
  public:
    std::vector<uint64_t> tape;
    bool replay;
    size_t pos = 0;
    Rng rng;
    explicit Src(uint64_t seed) : replay(false), rng(seed) {
        if (g_mirror) g_mirror->count = 0;
    }
    explicit Src(std::vector<uint64_t> t) : tape(std::move(t)), replay(true), rng(0) {}

    // a number in [0, n)
    uint64_t below(uint64_t n) {
        uint64_t x;
        if (replay) {
            x = pos < tape.size() ? tape[pos] : 0;
            pos++;
            return n <= 1 ? 0 : x % n;
        }
        if (tape.size() >= (1u << 20)) return 0;
        x = n <= 1 ? 0 : rng.bits() % n;
        tape.push_back(x);
        if (g_mirror && tape.size() <= g_mirror_cap) {
            g_mirror->v[tape.size() - 1] = x;
            g_mirror->count = tape.size();
        }
        return x;
    }
    uint64_t bits() { return below(0x7fffffffffffffffull) ; }
    uint64_t seed() { return below(1u << 30); }
    double unit() { return (double)below(1ull << 53) * 0x1p-53; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned pct) { return below(100) >= 100 - pct; } // 0 = false
    template <class T> T pick(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
    uint64_t hash() const {
        uint64_t h = 1469598103934665603ull;
        size_t n = replay ? (pos < tape.size() ? pos : tape.size()) : tape.size();
        for (size_t i = 0; i < n; i++) {
            h ^= tape[i];
            h *= 0x9E3779B97F4A7C15ull;
            h ^= h >> 29;
        }
        return h;
    }
};

struct Fail {
    std::string msg;
};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(cond, ...)                                                                         \
    do {                                                                                           \
        if (!(cond)) fail(__VA_ARGS__);                                                            \
    } while (0)

struct Ctx {
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    bool nontriv = false;
    std::string desc;
    bool want_desc = true;
    void label(const char *s, uint64_t k = 1) { labels[s] += k; }
    void label(const std::string &s, uint64_t k = 1) { labels[s] += k; }
    void nontrivial() { nontriv = true; }
    void describe(const char *f, ...) __attribute__((format(printf, 2, 3)));
};

struct Prop {
    const char *id;
    const char *rule; // how cases are made, what makes one non-trivial
    void (*run)(Src &, Ctx &);
    void (*start)(int worker, int nworkers); // optional, once per process
};
extern const Prop PROP; // each property file defines it
