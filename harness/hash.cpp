// The default hasher: C24.
#include "sym.h"
#include <nudb/xxhasher.hpp>
#include <cstring>
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
// XXH64 as its specification states it, written from the specification
static const uint64_t P1 = 0x9E3779B185EBCA87ull, P2 = 0xC2B2AE3D27D4EB4Full, P3 = 0x165667B19E3779F9ull,
                      P4 = 0x85EBCA77C2B2AE63ull, P5 = 0x27D4EB2F165667C5ull;
static uint64_t rotl(uint64_t x, unsigned r) { return x << r | x >> (64 - r); }
static uint64_t rd(const uint8_t* p, unsigned n) {
    uint64_t v = 0;
    for(unsigned i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i);
    return v;
}
static uint64_t rnd(uint64_t a, uint64_t lane) { return rotl(a + lane * P2, 31) * P1; }
static uint64_t ref(const uint8_t* p, uint64_t len, uint64_t seed) {
    uint64_t acc;
    uint64_t n = len;
    if(len >= 32) {
        uint64_t a[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
        while(n >= 32) {
            for(int i = 0; i < 4; i++) a[i] = rnd(a[i], rd(p + 8 * i, 8));
            p += 32;
            n -= 32;
        }
        acc = rotl(a[0], 1) + rotl(a[1], 7) + rotl(a[2], 12) + rotl(a[3], 18);
        for(int i = 0; i < 4; i++) acc = (acc ^ rnd(0, a[i])) * P1 + P4;
    } else
        acc = seed + P5;
    acc += len;
    while(n >= 8) {
        acc = rotl(acc ^ rnd(0, rd(p, 8)), 27) * P1 + P4;
        p += 8;
        n -= 8;
    }
    if(n >= 4) {
        acc = rotl(acc ^ (rd(p, 4) * P1), 23) * P2 + P3;
        p += 4;
        n -= 4;
    }
    while(n) {
        acc = rotl(acc ^ (*p * P5), 11) * P1;
        p++;
        n--;
    }
    acc ^= acc >> 33;
    acc *= P2;
    acc ^= acc >> 29;
    acc *= P3;
    acc ^= acc >> 32;
    return acc;
}
alignas(16) static uint8_t buf[400];
extern "C" void h_hash() {
    unsigned lo = P("lo", 0), n = lo + (unsigned)sym_choose("len", P("n", 72)), al = (unsigned)sym_choose("align", 8);
    uint64_t seed = sym_u64("seed");
    uint8_t* p = buf + 16 + al;
    sym_bytes(p, n, "data");
    nudb::xxhasher h(seed);
    uint64_t a = h(p, n);
    sym_check(a == ref(p, n, seed), "the digest is XXH64");
    sym_observe(a);
    sym_reach(n >= 32 ? "long" : "short");
    if(al) sym_reach("unaligned");
}
