// Schedule perturbation and clock control for the core harnesses.
#pragma once
#include "hcommon.h"
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <dirent.h>

static std::atomic<int> pLevel{0};          // 0 off, 1 light, 2 medium, 3 heavy
static std::atomic<uint64_t> pSeed{1};
static std::atomic<uint64_t> pEvents{0};    // progress events, watched by the watchdog
static std::atomic<uint64_t> pDelays{0};

static inline uint64_t tlsRand() {
    static std::atomic<uint64_t> ids{0};
    thread_local uint64_t s = mix(pSeed.load(std::memory_order_relaxed), ++ids);
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return s >> 24;
}
static inline void realSleepUs(long us) { timespec t = { us / 1000000, (us % 1000000) * 1000 }; nanosleep(&t, nullptr); }
static inline void perturb() {
    int l = pLevel.load(std::memory_order_relaxed);
    if (!l) return;
    unsigned r = (unsigned)(tlsRand() % 1000);
    unsigned lim = l == 1 ? 20 : l == 2 ? 100 : 350;
    if (r >= lim) return;
    pDelays.fetch_add(1, std::memory_order_relaxed);
    if (r % 3 == 0) sched_yield();
    else if (r % 3 == 1) { volatile int x = 0; int n = (int)(tlsRand() % 3000); for (int i = 0; i < n; i++) x = x + i; }
    else realSleepUs((long)(tlsRand() % (l == 3 ? 300 : 120)));
}

#if !defined(__SANITIZE_THREAD__)
extern "C" __attribute__((visibility("default"))) int pthread_mutex_unlock(pthread_mutex_t *m) {
    static auto real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    perturb();
    return r;
}
extern "C" __attribute__((visibility("default"))) int pthread_cond_signal(pthread_cond_t *c) {
    static auto real = (int (*)(pthread_cond_t *))dlsym(RTLD_NEXT, "pthread_cond_signal");
    perturb();
    return real(c);
}
#endif

// steady_clock as the library sees it: base + elapsed * warp (0: frozen)
static std::atomic<int> clkWarp{1};
static std::atomic<int64_t> clkBase{0}, clkRealBase{0};
static inline int64_t realNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static std::atomic<uint64_t> clkReads{0};
static std::atomic<int64_t> clkStep{0};     // added to the clock on every read
static inline int64_t clkNow() { return clkBase.load() + (realNow() - clkRealBase.load()) * clkWarp.load(); }
static inline void clkSet(int warp, int64_t jump = 0) { int64_t n = clkNow() + jump; clkBase = n; clkRealBase = realNow(); clkWarp = warp; }
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((visibility("default"))) steady_clock::time_point steady_clock::now() noexcept {
    clkReads.fetch_add(1, std::memory_order_relaxed);
    if (int64_t st = clkStep.load(std::memory_order_relaxed)) clkBase.fetch_add(st);
    return time_point(duration(clkNow()));
}
}}}
static inline void clkInit() { clkRealBase = realNow(); clkBase = realNow(); clkWarp = 1; }

// Watchdog. A hang is reported only when nothing progressed, work is outstanding, and every
// other thread of the process is blocked without using any CPU: there is nothing left that could wake them.
static std::atomic<int> wdActive{0};
static std::function<std::string()> wdDescribe;
static inline int64_t procCpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static inline bool allBlocked() {
    DIR *d = opendir("/proc/self/task");
    if (!d) return true;
    long self = (long)gettid();
    bool ok = true;
    while (auto *e = readdir(d)) {
        long tid = atol(e->d_name);
        if (tid <= 0 || tid == self) continue;
        FILE *f = fopen(fmt("/proc/self/task/%ld/stat", tid).c_str(), "r");
        if (!f) continue;
        char b[512]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f);
        char *p = strrchr(b, ')');
        if (p && p[2] != 'S') ok = false;
    }
    closedir(d);
    return ok;
}
static void startWatchdog(int quietMs = 12000) {
    std::thread([quietMs]() {
        uint64_t last = 0; int64_t since = realNow(); int64_t cpu0 = procCpu(); bool blocked = true;
        while (true) {
            realSleepUs(200000);
            uint64_t e = pEvents.load();
            if (!wdActive || e != last) { last = e; since = realNow(); cpu0 = procCpu(); blocked = true; continue; }
            if (!allBlocked()) { blocked = false; }
            int64_t quiet = (realNow() - since) / 1000000;
            if (quiet < quietMs) continue;
            int64_t cpu = (procCpu() - cpu0) / 1000000;
            if (blocked && cpu < quiet / 10) {
                viol("hang", fmt("no progress for %lld ms while work is outstanding; every thread is blocked and the process used %lld ms of CPU: ", (long long)quiet, (long long)cpu) + (wdDescribe ? wdDescribe() : ""));
                hDone();
                _exit(0);
            }
            since = realNow(); cpu0 = procCpu(); blocked = true; // not quiescent: look again, the outer timeout decides
        }
    }).detach();
}
