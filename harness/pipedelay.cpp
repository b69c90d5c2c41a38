// preload: delays writes and lock releases of the program it is loaded in, at random (VERIF_DELAY: seed, VERIF_DELAY_US: longest delay)
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>

static std::atomic<uint64_t> st{0};
static int us = 0;
static std::atomic<int> budget{300000}, wbudget{400000};   // us left to spend on locks, on writes
static std::atomic<int> threads{0};                        // has the program started any?

__attribute__((constructor)) static void init() {
    const char *s = getenv("VERIF_DELAY"), *u = getenv("VERIF_DELAY_US");
    if (s)
        st = strtoull(s, nullptr, 10) * 0x9E3779B97F4A7C15ull + 1;
    if (u)
        us = atoi(u);
}

static uint64_t rnd() {
    uint64_t x = st.fetch_add(0x9E3779B97F4A7C15ull);
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

static void pause(std::atomic<int> &b, unsigned one_in) {
    if (us && b > 0) {
        uint64_t r = rnd();
        if (r % one_in == 0) {
            int t = (r >> 20) % us;
            b -= t;
            usleep(t);
        }
    }
}

extern "C" __attribute__((visibility("default"))) size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
    static auto real = (size_t (*)(const void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fwrite");
    pause(wbudget, 2);
    return real(p, s, n, f);
}

extern "C" __attribute__((visibility("default"))) int pthread_mutex_unlock(pthread_mutex_t *m) {
    static auto real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    if (threads)
        pause(budget, gettid() == getpid() ? 3 : 64);
    return r;
}

// the requesting thread falls behind the worker it has just woken
static int wake(int (*real)(pthread_cond_t *), pthread_cond_t *c) {
    int r = real(c);
    if (threads && gettid() == getpid())
        pause(budget, 3);
    return r;
}

extern "C" __attribute__((visibility("default"))) int pthread_cond_signal(pthread_cond_t *c) {
    static auto real = (int (*)(pthread_cond_t *))dlsym(RTLD_NEXT, "pthread_cond_signal");
    return wake(real, c);
}

extern "C" __attribute__((visibility("default"))) int pthread_cond_broadcast(pthread_cond_t *c) {
    static auto real = (int (*)(pthread_cond_t *))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
    return wake(real, c);
}

extern "C" __attribute__((visibility("default"))) int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    threads++;
    return real(t, a, f, x);
}
