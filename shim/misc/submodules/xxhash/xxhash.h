#pragma once
#include <stdint.h>
#include <stddef.h>
static inline uint64_t XXH64(const void* p, size_t n, uint64_t seed) {
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = 1469598103934665603ull ^ seed;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}
