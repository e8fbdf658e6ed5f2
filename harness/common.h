// Shared harness runtime: seeded case loop, violation reporting, observation counters.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {                       // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 11) % n) : 0; }
    int range(int a, int b) { return a + int(below(uint32_t(b - a + 1))); }   // inclusive
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    double logUniform(double a, double b) { return std::exp(uniform(std::log(a), std::log(b))); }
    double normal() { double u = std::max(unit(), 1e-300), v = unit(); return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(uint32_t(v.size()))]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull)); return r.next(); }
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

struct Ctx {
    uint64_t seed = 1;
    long caseIndex = 0;
    bool thorough = false;
    bool verbose = false;
    std::string mode;
    Rng rng;
    long evaluations = 0;
    long failures = 0;
    std::map<std::string, double> counters;          // summed across shards
    std::map<std::string, double> maxima;            // maximised across shards
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::unordered_set<std::string> caseKeys;

    static std::string fmt(const char* f, va_list ap) {
        char b[4096]; vsnprintf(b, sizeof b, f, ap); return b;
    }
    // A violation of the property: key identifies the kind of failure, the rest describes the witness
    __attribute__((format(printf, 3, 4)))
    void fail(const std::string& key, const char* f, ...) {
        if (!caseKeys.insert(key).second) return;    // once per key per case
        va_list ap; va_start(ap, f); std::string m = fmt(f, ap); va_end(ap);
        for (char& c : m) if (c == '\n') c = ' ';
        failures++;
        printf("FAIL\t%s\t%ld\t%s\n", key.c_str(), caseIndex, m.c_str()); fflush(stdout);
    }
    void eval(long n = 1) { evaluations += n; }
    void count(const std::string& k, double n = 1) { counters[k] += n; }
    void maxi(const std::string& k, double v) { auto it = maxima.find(k); if (it == maxima.end()) maxima[k] = v; else if (v > it->second) it->second = v; }
    void seen(uint64_t h) { if (distinct.size() < 400000) distinct.insert(h); }
    __attribute__((format(printf, 2, 3)))
    void sample(const char* f, ...) {
        if (samples.size() >= 3) return;
        va_list ap; va_start(ap, f); std::string m = fmt(f, ap); va_end(ap);
        samples.push_back(m);
    }
    __attribute__((format(printf, 2, 3)))
    void log(const char* f, ...) {
        if (!verbose) return;
        va_list ap; va_start(ap, f); vprintf(f, ap); va_end(ap); printf("\n"); fflush(stdout);
    }
};

inline std::string jsonEsc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

// Each harness provides runCase(ctx). Case k of seed S always does the same thing.
inline int runMain(int argc, char** argv, const std::function<void(Ctx&)>& runCase) {
    Ctx c;
    long from = 0, to = 1;
    const char* progress = nullptr; const char* hashes = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--seed") c.seed = strtoull(val(), nullptr, 10);
        else if (a == "--from") from = atol(val());
        else if (a == "--to") to = atol(val());
        else if (a == "--case") { from = atol(val()); to = from + 1; }
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--verbose") c.verbose = true;
        else if (a == "--mode") c.mode = val();
        else if (a == "--progress") progress = val();
        else if (a == "--hashes") hashes = val();
    }
    int pfd = progress ? open(progress, O_CREAT | O_WRONLY, 0644) : -1;
    for (long k = from; k < to; k++) {
        if (pfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20ld\n", k); if (pwrite(pfd, b, n, 0)) {} }
        c.caseIndex = k;
        c.caseKeys.clear();
        c.rng = Rng(mix(mix(c.seed, hashStr(c.mode)), uint64_t(k)));
        runCase(c);
    }
    std::string j = "{\"evaluations\":" + std::to_string(c.evaluations) + ",\"counters\":{";
    bool first = true; char b[64];
    for (auto& kv : c.counters) { snprintf(b, sizeof b, "%.17g", kv.second); j += (first ? "\"" : ",\"") + jsonEsc(kv.first) + "\":" + b; first = false; }
    j += "},\"maxima\":{"; first = true;
    for (auto& kv : c.maxima) { double v = std::isfinite(kv.second) ? kv.second : 1e308; snprintf(b, sizeof b, "%.17g", v); j += (first ? "\"" : ",\"") + jsonEsc(kv.first) + "\":" + b; first = false; }
    j += "},\"samples\":["; first = true;
    for (auto& s : c.samples) { j += (first ? "\"" : ",\"") + jsonEsc(s) + "\""; first = false; }
    j += "],\"distinct\":" + std::to_string(c.distinct.size()) + "}";
    printf("STATS\t%s\n", j.c_str()); fflush(stdout);
    if (hashes) { FILE* f = fopen(hashes, "wb"); if (f) { for (uint64_t h : c.distinct) fwrite(&h, 8, 1, f); fclose(f); } }
    return 0;
}

} // namespace vh
