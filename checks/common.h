// Shared helpers of the check harnesses.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <stxxl/io>
#include <stxxl/bits/common/aligned_alloc.h>

namespace chk {
typedef unsigned long long u64;

// every 8-byte word of a written range is unique to (tag, index)
inline u64 word(u64 tag, u64 j) { return (tag << 24) ^ j ^ 0x5A00000000000000ull; }
inline void fill(void* p, size_t bytes, u64 tag)
{
    sim::NoPreempt np;
    u64* w = (u64*)p;
    for (size_t j = 0; j < bytes / 8; ++j) w[j] = word(tag, j);
}
// returns -1 or index of the first wrong word
inline long check(const void* p, size_t bytes, u64 tag)
{
    sim::NoPreempt np;
    const u64* w = (const u64*)p;
    if (tag == 0) { for (size_t j = 0; j < bytes / 8; ++j) if (w[j] != 0) return (long)j; return -1; }
    for (size_t j = 0; j < bytes / 8; ++j) if (w[j] != word(tag, j)) return (long)j;
    return -1;
}
inline void quiet_logs()
{
    setenv("STXXLLOGFILE", "/dev/null", 1);
    setenv("STXXLERRLOGFILE", "/dev/null", 1);
    setenv("STXXLCFG", "/nonexistent", 1);
}
inline void* abuf(size_t bytes) { return stxxl::aligned_alloc<4096>(bytes); }
inline void afree(void* p) { stxxl::aligned_dealloc<4096>(p); }
}
#endif
