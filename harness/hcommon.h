// Common pieces of the C++ harnesses: arguments, PRNG, reporting.
#pragma once
#include <cstdarg>
#include <cfloat>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <mutex>
#include <atomic>
#include <thread>
#include <chrono>
#include <functional>
#include <memory>
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include "VapourSynth4.h"
#include "VSHelper4.h"

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};

static inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15 + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static std::mutex hOutLock;
static std::map<std::string, int64_t> hCount;
static std::unordered_set<uint64_t> hDistinct;
static std::atomic<int> hViol{0};
static std::atomic<int64_t> hEvals{0};
static int hSamples = 0;

static inline void hLine(const std::string &s) {
    std::lock_guard<std::mutex> l(hOutLock);
    std::string t = s;
    for (auto &c : t) if (c == '\n' || c == '\r') c = ' ';
    t += '\n';
    size_t off = 0;
    while (off < t.size()) {
        ssize_t r = ::write(1, t.data() + off, t.size() - off);
        if (r <= 0) _exit(77);
        off += (size_t)r;
    }
}
static inline std::string fmt(const char *f, ...) {
    char b[4096];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
static inline void viol(const std::string &key, const std::string &msg) {
    hLine("VIOL " + key + " " + msg);
    if (++hViol == 25) {    // enough: what is broken may also be slow
        hLine(fmt("DONE {\"evals\":%lld,\"distinct\":%lld}", (long long)hEvals.load(), (long long)hDistinct.size()));
        _exit(0);
    }
}
static inline void sample(const std::string &s) { if (hSamples < 2) { hSamples++; hLine("SAMPLE " + s); } }
static inline void count(const std::string &k, int64_t n = 1) { hCount[k] += n; }

struct Args {
    uint64_t seed = 1;
    int from = 0, to = 1;
    std::map<std::string, std::string> kv;
    Args(int argc, char **argv) {
        for (int i = 1; i < argc; i++) {
            std::string k = argv[i];
            std::string v = i + 1 < argc ? argv[i + 1] : "";
            if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10), i++;
            else if (k == "--from") from = atoi(v.c_str()), i++;
            else if (k == "--to") to = atoi(v.c_str()), i++;
            else if (k.rfind("--", 0) == 0) kv[k.substr(2)] = v, i++;
        }
    }
    std::string get(const std::string &k, const std::string &d = "") const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
    int geti(const std::string &k, int d) const { auto it = kv.find(k); return it == kv.end() ? d : atoi(it->second.c_str()); }
};

static inline void hDone() {
    if (!hSamples) { std::string t = fmt("%lld evaluations in %lld different cases", (long long)hEvals.load(), (long long)hDistinct.size()); for (auto &c : hCount) t += fmt(", %lld %s", (long long)c.second, c.first.c_str()); sample(t); }
    std::string s = fmt("DONE {\"evals\":%lld,\"distinct\":%lld", (long long)hEvals.load(), (long long)hDistinct.size());
    for (auto &c : hCount) s += fmt(",\"%s\":%lld", c.first.c_str(), (long long)c.second);
    hLine(s + "}");
}
static inline const VSAPI *api() {
    static const VSAPI *a = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    if (!a) { hLine("SKIP no api"); _exit(77); }
    return a;
}
