// Shared plumbing of the monitors: random numbers, case context, reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::string str;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
    bool pct(int p) { return (int)below(100) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
    Rng fork() { return Rng(next()); }
};

inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hashStr(const str &s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
str jsonEsc(const str &s);   // quoted JSON string, bytes >= 0x80 as \u00XX
str visible(const str &s);   // printable rendering

// Shared with the parent through a mapped file, so that a crash can be attributed.
struct Status {
    volatile uint64_t caseIdx;
    volatile uint64_t done;
    volatile uint64_t failures;
    volatile uint64_t hang;
    char phase[256];
    char text[60000];   // the script (or a prefix) under test
};

struct Ctx {
    str prop;
    uint64_t seed = 1;
    uint64_t caseIdx = 0;
    bool thorough = false;
    bool verbose = false;
    str scratch;                       // private scratch directory of this worker
    Status *st = nullptr;
    FILE *failFile = nullptr;
    FILE *hashFile = nullptr;
    uint64_t evals = 0;                // executions / cases judged
    uint64_t failures = 0;
    std::map<str, uint64_t> feat;      // what the monitors saw
    std::unordered_set<uint64_t> hashes;
    std::vector<str> samples;

    void phase(const char *p) { if (st) { strncpy(st->phase, p, sizeof(st->phase) - 1); } if (verbose) fprintf(stderr, "[phase] %s\n", p); }
    void text(const str &t) {
        if (st) { size_t n = t.size() < sizeof(st->text) - 1 ? t.size() : sizeof(st->text) - 1; memcpy(st->text, t.data(), n); st->text[n] = 0; }
        if (verbose) fprintf(stderr, "%s\n----\n", t.c_str());
    }
    void count(const char *k, uint64_t n = 1) { feat[k] += n; }
    void maxi(const char *k, uint64_t n) { uint64_t &v = feat[str("max_") + k]; if (n > v) v = n; }
    void distinct(uint64_t h) { hashes.insert(h); }
    // sig: short stable name of what failed (used for known findings).
    void fail(const str &sig, const str &detail);
    void sample(const str &s) { if (samples.size() < 2) samples.push_back(s.substr(0, 1200)); }
    void resetTimer();
};

typedef void (*CaseFn)(Ctx &c, Rng &r);
struct Engine { const char *prop; CaseFn fn; CaseFn once; };
struct EngineReg { EngineReg(const char *prop, CaseFn fn); };
#define ENGINE(prop, fn) static EngineReg reg_##prop(#prop, fn)

static inline str readFile(const str &p, bool *ok = nullptr) {
    FILE *f = fopen(p.c_str(), "rb"); str s; if (ok) *ok = f != nullptr; if (!f) return s;
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
static inline bool writeFile(const str &p, const str &s) {
    FILE *f = fopen(p.c_str(), "wb"); if (!f) return false; bool ok = fwrite(s.data(), 1, s.size(), f) == s.size(); fclose(f); return ok;
}
