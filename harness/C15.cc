// C15: version, licence and error texts.
#include "common.hpp"
#include <set>

static void check_copy(const char *what, const std::string &full, size_t size, void (*fn)(char *, unsigned long, int), int arg, bool expect, unsigned char fill) {
    // an exactly sized heap buffer (sanitizer build) between guards (production build)
    size_t G = 64;
    unsigned char *raw = (unsigned char *)malloc(size + 2 * G);
    memset(raw, fill, size + 2 * G);
    fn((char *)raw + G, size, arg);
    std::string got((char *)raw + G, size);
    bool guards = true;
    for (size_t i = 0; i < G; i++) guards &= raw[i] == fill && raw[G + size + i] == fill;
    free(raw);
    char *exact = (char *)malloc(size ? size : 1);
    memset(exact, fill, size ? size : 1);
    fn(exact, size, arg);
    bool exact_same = size == 0 ? (unsigned char)exact[0] == fill : memcmp(exact, got.data(), size) == 0;
    free(exact);
    REQUIRE(guards, "%s(%d) wrote outside its buffer of %zu bytes", what, arg, size);
    REQUIRE(exact_same, "%s(%d) with %zu bytes gives different bytes in two buffers", what, arg, size);
    if (!expect) {
        REQUIRE(got == std::string(size, (char)fill), "%s(%d) changed a buffer of %zu bytes it has nothing to say in", what, arg, size);
        return;
    }
    if (size == 0) return;
    size_t z = got.find('\0');
    REQUIRE(z != std::string::npos, "%s(%d) with %zu bytes is not terminated: \"%s\"", what, arg, size, got.c_str());
    std::string want = full.substr(0, std::min(full.size(), size - 1));
    REQUIRE(got.substr(0, z) == want, "%s(%d) with %zu bytes gives \"%s\", expected \"%s\"", what, arg, size, got.substr(0, z).c_str(), want.c_str());
}
static void f_version(char *b, unsigned long n, int) { libspot_version(b, n); }
static void f_license(char *b, unsigned long n, int) { libspot_license(b, n); }
static void f_error(char *b, unsigned long n, int e) { libspot_error((enum LibspotError)e, b, n); }

static std::string text(void (*fn)(char *, unsigned long, int), int arg) {
    std::vector<char> b(4096, 0);
    fn(b.data(), b.size(), arg);
    return b.data();
}
static bool has(const std::string &t, std::initializer_list<const char *> words) {
    std::string l;
    for (char ch : t) l += (char)tolower((unsigned char)ch);
    for (const char *w : words)
        if (l.find(w) == std::string::npos) return false;
    return true;
}

static void run(Src &s, Ctx &c) {
    size_t size;
    switch (s.below(4)) {
    case 0: size = s.below(6); break;
    case 1: size = s.below(130); break;
    case 2: size = 60 + s.below(40); break;
    default: size = s.below(3000); break;
    }
    unsigned char fill = s.pick({(unsigned char)0xAA, (unsigned char)0x00, (unsigned char)0xFF, (unsigned char)'x'});
    unsigned k = s.below(4);
    std::string v = text(f_version, 0), l = text(f_license, 0);
    if (k == 0) {
        REQUIRE(v == VP_VERSION, "version is \"%s\", built as \"%s\"", v.c_str(), VP_VERSION);
        c.describe("version in %zu bytes", size);
        check_copy("libspot_version", v, size, f_version, 0, true, fill);
        libspot_version(nullptr, size);
        c.label("version");
        c.nontrivial();
    } else if (k == 1) {
        REQUIRE(has(l, {"lgpl"}) || has(l, {"lesser general public"}), "licence is \"%s\"", l.c_str());
        c.describe("licence in %zu bytes", size);
        check_copy("libspot_license", l, size, f_license, 0, true, fill);
        libspot_license(nullptr, size);
        c.label("licence");
        c.nontrivial();
    } else {
        int code;
        switch (s.below(4)) {
        case 0: code = 1000 + (int)s.below(6); break;
        case 1: code = 1000 + (int)s.below(5); break;
        case 2: code = 995 + (int)s.below(20); break;
        default: code = s.pick({0, -1, -1000, -1005, 2147483647, (int)-2147483648ll, 999, 1006, 500, 65536 + 1000}); break;
        }
        bool valid = code >= 1000 && code <= 1005;
        std::string t = text(f_error, code);
        c.describe("error %d in %zu bytes: \"%s\"", code, size, t.c_str());
        if (code == 1005 && t.empty()) { // listed as a known finding: the table has a text that is never given
            c.label("KNOWN nan-message");
            valid = false;
        }
        check_copy("libspot_error", t, size, f_error, code, valid, fill);
        libspot_error((enum LibspotError)code, nullptr, size);
        if (valid) {
            REQUIRE(!t.empty(), "error %d has no message", code);
            bool ok = code == 1000   ? has(t, {"memory"})
                      : code == 1001 ? has(t, {"level"}) && has(t, {"bounds"})
                      : code == 1002 ? has(t, {"q "}) && has(t, {"1-level"})
                      : code == 1003 ? has(t, {"excess threshold"})
                      : code == 1004 ? has(t, {"anomaly threshold"})
                                     : has(t, {"nan"});
            REQUIRE(ok, "error %d has the message \"%s\"", code, t.c_str());
            std::set<std::string> all;
            for (int e = 1000; e < 1005; e++) all.insert(text(f_error, e));
            REQUIRE(all.size() == 5, "two error codes share a message");
            c.label("error of the library");
            c.nontrivial();
        } else {
            REQUIRE(t.empty(), "code %d, which is no error of the library, has the message \"%s\"", code, t.c_str());
            c.label("other code");
            if (code >= 990 && code <= 1015) c.nontrivial();
        }
    }
    c.label(size == 0 ? "size 0" : size == 1 ? "size 1" : size < 90 ? "possibly truncated" : "ample");
}
const Prop PROP = {"C15",
                   "one text request with a generated buffer size (0..3000, dense around the text lengths), fill byte and, for errors, code (all valid codes, their "
                   "neighbourhood, extremes); guards, termination, truncation and message contents checked, in a production and a sanitizer build; non-trivial: "
                   "a text is due, or the code is next to the valid range",
                   run, nullptr};
