// Common pieces for whole-database harnesses.
#pragma once
#include "env.h"
#include <nudb/nudb.hpp>
#include <nudb/context.hpp>
#include <nudb/recover.hpp>
#include <nudb/create.hpp>
#include <nudb/verify.hpp>
#include <nudb/visit.hpp>
#include <nudb/rekey.hpp>
#include <nudb/posix_file.hpp>
#include <nudb/basic_store.hpp>
using nudb::error_code;
#ifdef MANY_KEYS
static const unsigned NK_MAX = MANY_KEYS; // 4-byte keys
#else
static const unsigned NK_MAX = 16;
#endif
#ifndef VMAX
#define VMAX 64
#endif
#ifndef KMAX
#define KMAX 16
#endif
// The hash is an arbitrary function of the key (and, with HASH_SALTED, of the salt): one free 64-bit value per key.
static uint64_t g_h[2][NK_MAX];
#ifdef MANY_KEYS
static unsigned g_ks = 4;
#else
static unsigned g_ks = 3;
#endif
static uint64_t g_salt0 = 0x1122334455667788ull;
// Keys are fixed and distinct: the number of a key is spread over its first, middle and last byte, so that two keys may
// differ in one of these only.
static inline uint8_t key_filler(unsigned i) { return (uint8_t)(0x5A + i * 3); }
static void key_of(unsigned id, uint8_t* k) {
#ifdef MANY_KEYS
    k[0] = (uint8_t)(id * 37 + 11);
    k[1] = 0x5A;
    k[2] = (uint8_t)id;
    k[3] = (uint8_t)(id >> 8);
    return;
#endif
    for(unsigned i = 0; i < g_ks; i++) k[i] = key_filler(i);
    if(g_ks == 1)
        k[0] = (uint8_t)(0x80 + id);
    else if(g_ks == 2) {
        k[0] = (uint8_t)(0x80 + (id & 3));
        k[1] = (uint8_t)(0x40 + (id >> 2));
    } else {
        k[0] = (uint8_t)(0x80 + (id & 1));
        k[g_ks / 2] = (uint8_t)(0x20 + (id >> 1 & 1));
        k[g_ks - 1] = (uint8_t)(0x40 + (id >> 2));
    }
}
// number of a key, or NK_MAX
static unsigned id_of(const uint8_t* k) {
#ifdef MANY_KEYS
    unsigned n = k[2] | (unsigned)k[3] << 8;
    return n < NK_MAX && k[1] == 0x5A && k[0] == (uint8_t)(n * 37 + 11) ? n : NK_MAX;
#endif
    unsigned id, bad = 0;
    if(g_ks == 1) {
        id = (unsigned)k[0] - 0x80;
        bad = id >> 4;
    } else if(g_ks == 2) {
        unsigned a = (unsigned)k[0] - 0x80, c = (unsigned)k[1] - 0x40;
        bad = (a >> 2) | (c >> 2);
        id = (a & 3) | (c & 3) << 2;
    } else {
        unsigned a = (unsigned)k[0] - 0x80, b = (unsigned)k[g_ks / 2] - 0x20, c = (unsigned)k[g_ks - 1] - 0x40;
        bad = (a >> 1) | (b >> 1) | (c >> 2);
        for(unsigned i = 1; i + 1 < g_ks; i++)
            if(i != g_ks / 2) bad |= (unsigned)(k[i] ^ key_filler(i));
        id = (a & 1) | (b & 1) << 1 | (c & 3) << 2;
    }
    return bad ? NK_MAX : id;
}
struct SymHasher {
    uint64_t salt;
    explicit SymHasher(uint64_t s) : salt(s) {}
    uint64_t operator()(void const* p, std::size_t n) const noexcept {
        const unsigned char* b = (const unsigned char*)p;
        if(n == 8 && g_ks != 8) {
            uint64_t x = 0;
            for(int i = 0; i < 8; i++) x |= (uint64_t)b[i] << (8 * i);
            return (x << 13 | x >> 51) ^ (salt << 7 | salt >> 57) ^ 0x9E3779B97F4A7C15ull;
        }
        if(n != g_ks) return ~n;
        unsigned id = id_of(b);
        return id < NK_MAX ? g_h[salt != g_salt0][id] : 0;
    }
};
using store_t = nudb::basic_store<SymHasher, nudb::posix_file>;
static const char *DP = "d", *KP = "k", *LP = "l";
static uint8_t g_val[NK_MAX][VMAX];
static unsigned g_vs[NK_MAX]; // value bytes (free) and sizes
static unsigned g_nk;
// hmode 0: arbitrary 48-bit hashes; 1: distinct ordered high parts, hb free low bits (bucket choice), 2: all hashes
// equal but arbitrary, 5: 4 free top bits and hb free low bits, 3: hb free low bits, high part one of two values
// (collisions), 4: arbitrary, but in ascending order, 6: two values
// that differ in the lowest bit, everything else free
static void setup_keys(unsigned nk, unsigned hmode = 0, unsigned hb = 2, bool salted = false) {
    g_nk = nk;
    uint64_t one = hmode == 2 ? sym_u64("hash") : 0;
    for(unsigned s = 0; s < (salted ? 2u : 1u); s++)
        for(unsigned i = 0; i < nk; i++) {
            uint64_t v;
            if(hmode == 0)
                v = sym_u64("hash");
            else if(hmode == 1)
                v = ((uint64_t)(i * 5 % nk + 1) << 8 | sym_bits("hlow", hb)) << 16;
            else if(hmode == 2)
                v = one;
            else if(hmode == 5)
                v = sym_bits("hhigh", 4) << 60 | sym_bits("hlow", hb) << 16;
            else if(hmode == 3)
                v = ((uint64_t)(1 + i % 2) << 8 | sym_bits("hlow", hb)) << 16;
            else if(hmode == 6) {
                if(!s && !i) one = sym_u64("hash");
                v = (one & ~0x3ffffull) ^ (uint64_t)(s ? i * 3 + i / 4 : i) % 2 << 16;
            } else {
                v = sym_u64("hash");
                if(i) sym_assume((g_h[s][i - 1] >> 16) <= (v >> 16));
            }
            g_h[s][i] = v;
        }
    if(!salted)
        for(unsigned i = 0; i < nk; i++) g_h[1][i] = g_h[0][i] ^ 0x5A17C3D2E4B6980Full;
    unsigned big = (unsigned)sym_param("bigval", 0);
    for(unsigned i = 0; i < nk; i++) {
        g_vs[i] = big && i % 3 == 1 ? big : 1 + (i * 7) % 5;
        if(g_vs[i] <= 8)
            sym_bytes(g_val[i], g_vs[i], "value");
        else {
            sym_bytes(g_val[i], 4, "value");
            for(unsigned j = 4; j < g_vs[i]; j++) g_val[i][j] = (uint8_t)(j * 31 + i);
            sym_bytes(g_val[i] + g_vs[i] - 4, 4, "value");
        }
    }
}
struct CreateArgs {
    uint64_t appnum = 7, uid = 42;
    unsigned bs = 104;
    float lf = 0.5f;
};
static void create_db(unsigned bs, float lf) {
    error_code ec;
    nudb::create<SymHasher, nudb::posix_file>(DP, KP, LP, 7, 42, g_salt0, g_ks, bs, lf, ec);
    sym_check(!ec, "create succeeds");
}
struct FetchCb {
    unsigned* calls;
    const uint8_t* want;
    unsigned n;
    bool* ok;
    void operator()(void const* p, std::size_t sz) const {
        ++*calls;
        sched_point();
        hb_touch(p, sz, 0);
        bool g = sz == n;
        if(g) {
            const uint8_t* q = (const uint8_t*)p;
            unsigned d = 0;
            for(unsigned i = 0; i < n; i++) d |= q[i] ^ want[i];
            g = d == 0;
        }
        *ok &= g;
    }
};
enum FetchRes { F_FOUND, F_ABSENT, F_WRONG, F_ERROR };
static error_code g_lastec;
// fetch key id and classify; F_WRONG covers wrong bytes, several callbacks, callback together with an error
template <class S> static int do_fetch(S& db, unsigned id) {
    uint8_t k[KMAX];
    key_of(id, k);
    unsigned calls = 0;
    bool ok = true;
    error_code ec;
    db.fetch(k, FetchCb{&calls, g_val[id], g_vs[id], &ok}, ec);
    if(!thr_on) g_lastec = ec;
    if(!ec) {
        if(calls != 1) return F_WRONG;
        return ok ? F_FOUND : F_WRONG;
    }
    if(calls) return F_WRONG;
    if(ec == nudb::error::key_not_found) return F_ABSENT;
    return F_ERROR;
}
template <class S> static error_code do_insert(S& db, unsigned id) {
    uint8_t k[KMAX];
    key_of(id, k);
    error_code ec;
    db.insert(k, g_val[id], g_vs[id], ec);
    return ec;
}
// ---- independent reader of the documented format, straight from the file images
static uint64_t be_at(const uint8_t* p, unsigned n) {
    uint64_t v = 0;
    for(unsigned i = 0; i < n; i++) v = v << 8 | p[i];
    return v;
}
static const unsigned DAT_HDR = 92, KEY_HDR = 104, LOG_HDR = 62;
static uint64_t hash48(unsigned id, unsigned which = 0) { return (g_h[which][id] >> 16) & 0xffffffffffffull; }
static uint64_t ref_pow2(uint64_t n) {
    uint64_t m = 1;
    while(m < n) m *= 2;
    return m;
}
static uint64_t ref_index(uint64_t h, uint64_t buckets) {
    uint64_t m = ref_pow2(buckets);
    uint64_t n = h & (m - 1);
    if(n >= buckets) n -= m / 2;
    return n;
}
// Sparse databases (huge.cpp): bytes in the hole of the data file, where it ends, and what stands before it
static uint64_t g_gap = 0, g_gapend = 0, g_bighash = 0;
static uint64_t (*g_logical_block)(uint64_t) = nullptr; // number of a stored key file block
static uint64_t stored_off(uint64_t o) {
    if(g_gapend && o >= g_gapend) o -= g_gap;
    return sym_concretize(o);
}
// Walk data and key file as the documentation describes them; present[id] says which items must be stored (and no
// others).
static void check_format(const bool* present, unsigned nk, unsigned bs, unsigned which = 0, bool counts = true) {
    const uint8_t *d = vf_data(DP), *k = vf_data(KP);
    sym_check(d && k, "data and key file exist");
    uint64_t dn = sym_concretize(vf_size(DP)), kn = sym_concretize(vf_size(KP));
    sym_check(dn >= DAT_HDR && !memcmp(d, "nudb.dat", 8) && be_at(d + 8, 2) == 2 && be_at(d + 10, 8) == 42 &&
                  be_at(d + 18, 8) == 7 && be_at(d + 26, 2) == g_ks,
              "data file header");
    for(unsigned i = 28; i < DAT_HDR; i++) sym_check(d[i] == 0, "data header reserved bytes");
    sym_check(kn >= 2 * bs && kn % bs == 0 && !memcmp(k, "nudb.key", 8) && be_at(k + 8, 2) == 2 &&
                  be_at(k + 10, 8) == 42 && be_at(k + 18, 8) == 7 && be_at(k + 26, 2) == g_ks && be_at(k + 44, 2) == bs,
              "key file header");
    uint64_t salt = be_at(k + 28, 8);
    if(which == 0) sym_check(salt == g_salt0, "salt");
    uint8_t le[8];
    for(int i = 0; i < 8; i++) le[i] = (uint8_t)(salt >> (8 * i));
    sym_check(be_at(k + 36, 8) == SymHasher(salt)(le, 8), "pepper");
    uint64_t stored = kn / bs - 1, buckets = vf_logsize(vf_find(KP), kn) / bs - 1, cap = (bs - 8) / 18;
    unsigned bigs = 0;
    uint64_t off[NK_MAX];
    bool seen[NK_MAX];
    for(unsigned i = 0; i < nk; i++) seen[i] = false;
    uint64_t sp_off[32];
    unsigned nsp = 0;
    bool sp_used[32];
    uint64_t p = g_gapend ? DAT_HDR + 6 + g_ks : DAT_HDR;
    while(p < dn) {
        sym_check(p + 6 <= dn, "record header inside file");
        uint64_t sz = be_at(d + p, 6);
        if(sz) {
            sym_check(p + 6 + g_ks + sz <= dn, "record inside file");
            unsigned id = id_of(d + p + 6);
            sym_check(id < nk && present[id], "record belongs to an inserted item");
            sym_check(!seen[id], "one record per item");
            seen[id] = true;
            uint8_t kk[KMAX];
            key_of(id, kk);
            sym_check(!memcmp(d + p + 6, kk, g_ks), "record key");
            sym_check(sz == g_vs[id], "record size");
            unsigned x = 0;
            for(unsigned i = 0; i < sz; i++) x |= d[p + 6 + g_ks + i] ^ g_val[id][i];
            sym_check(x == 0, "record value");
            off[id] = p;
            p += 6 + g_ks + sz;
        } else {
            sym_check(p + 8 <= dn, "spill header inside file");
            uint64_t s = be_at(d + p + 6, 2);
            sym_check(s >= 8 && (s - 8) % 18 == 0 && p + 8 + s <= dn, "spill record size");
            sym_check(nsp < 32, "harness bound: spills");
            sp_used[nsp] = false;
            sp_off[nsp++] = p + 8;
            p += 8 + s;
        }
    }
    sym_check(p == dn, "records end at the file end");
    for(unsigned i = 0; i < nk; i++) sym_check(seen[i] == present[i], "every item has a data record");
    unsigned ref[NK_MAX];
    for(unsigned i = 0; i < nk; i++) ref[i] = 0;
    for(uint64_t sb = 0; sb < stored; sb++) {
        const uint8_t* q = k + (sb + 1) * bs;
        uint64_t b = g_logical_block ? g_logical_block(sb + 1) - 1 : sb;
        bool inkey = true;
        unsigned chain = 0;
        for(;;) {
            uint64_t cnt = sym_concretize(be_at(q, 2)), sp = stored_off(be_at(q + 2, 6));
            sym_check(cnt <= cap, "bucket within capacity");
            uint64_t prev = 0;
            for(unsigned e = 0; e < cnt; e++) {
                uint64_t o = stored_off(be_at(q + 8 + 18 * e, 6)), s = be_at(q + 14 + 18 * e, 6),
                         h = be_at(q + 20 + 18 * e, 6);
                sym_check(h >= prev, "entries sorted by hash");
                prev = h;
                bool hit = false;
                unsigned i = o >= DAT_HDR && o + 6 + g_ks <= dn ? id_of(d + o + 6) : NK_MAX;
                if(i < nk && present[i] && off[i] == o) {
                    hit = true;
                    ref[i]++;
                    sym_check(s == g_vs[i], "entry size");
                    sym_check(h == hash48(i, which), "entry hash");
                    sym_check(ref_index(h, buckets) == b, "entry in the bucket linear hashing assigns");
                }
                if(g_gapend && o == DAT_HDR) {
                    hit = true;
                    bigs++;
                    sym_check(s == g_gap && h == g_bighash && ref_index(h, buckets) == b, "entry of the large record");
                }
                sym_check(hit, "entry refers to a data record");
            }
            if(inkey)
                for(unsigned i = 8 + 18 * (unsigned)cnt; i < bs; i++)
                    sym_check(q[i] == 0, "unused bucket bytes are zero");
            if(!sp) break;
            bool known = false;
            for(unsigned i = 0; i < nsp; i++)
                if(sp_off[i] == sp) {
                    known = true;
                    sym_check(!sp_used[i], "spill referenced once");
                    sp_used[i] = true;
                }
            sym_check(known, "spill offset refers to a spill record");
            q = d + sp;
            inkey = false;
            sym_check(++chain < 32, "spill chain ends");
        }
    }
    for(unsigned i = 0; i < nk; i++) sym_check(ref[i] == (present[i] ? 1u : 0u), "every item referenced exactly once");
    sym_check(bigs == (g_gapend ? 1u : 0u), "the large record is referenced exactly once");
    (void)counts;
}
