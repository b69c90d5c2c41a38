// Shared between the API 3 plugin and the harness: what a filter of the plugin saw.
#pragma once
#include <atomic>
#include <cstdint>
struct Probe3 {
    std::atomic<int> inside{0}, maxInside{0};       // calls at the same moment
    std::atomic<int> insideReady{0}, maxReady{0};   // calls with all frames ready
    std::atomic<int> busy{0}, maxBusy{0};           // frames between their first and last call
    std::atomic<int> frees{0}, late{0}, badReason{0}, badData{0}, calls{0}, errors{0}, badFormat{0};
    std::atomic<int64_t> lastN{-1};
};
static inline uint32_t pix3(uint64_t seed, int n, int plane, int y, int x) {
    uint64_t z = seed * 0x9E3779B97F4A7C15ull + (uint64_t)(n + 1) * 0xBF58476D1CE4E5B9ull + (uint64_t)plane * 0x94D049BB133111EBull + (uint64_t)y * 7919 + (uint64_t)x;
    z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
    return (uint32_t)(z >> 32);
}
