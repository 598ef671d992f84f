// C11: one inductive step of each bucket operation from an arbitrary valid bucket.
#include "sym.h"
#include <nudb/nudb.hpp>
#include <nudb/detail/bucket.hpp>
using namespace nudb;
using namespace nudb::detail;
static const unsigned MAXC = 16;
struct Ent {
    uint64_t off, size, hash;
};
static uint64_t be(const uint8_t* p, int n) {
    uint64_t v = 0;
    for(int i = 0; i < n; i++) v = v << 8 | p[i];
    return v;
}
static void pbe(uint8_t* p, uint64_t v, int n) {
    for(int i = n - 1; i >= 0; i--) {
        p[i] = (uint8_t)v;
        v >>= 8;
    }
}
// An arbitrary valid bucket image: n entries sorted by hash, 48-bit offsets, 32-bit sizes.
static void arbitrary(uint8_t* blk, unsigned bs, unsigned n, uint64_t spill, Ent* e) {
    for(unsigned i = 0; i < bs; i++) blk[i] = 0;
    pbe(blk, n, 2);
    pbe(blk + 2, spill, 6);
    for(unsigned i = 0; i < n; i++) {
        e[i].off = sym_bits("off", 48);
        e[i].size = sym_bits("size", 32);
        e[i].hash = sym_bits("hash", 48);
        if(i) sym_assume(e[i - 1].hash <= e[i].hash);
        pbe(blk + 8 + 18 * i, e[i].off, 6);
        pbe(blk + 14 + 18 * i, e[i].size, 6);
        pbe(blk + 20 + 18 * i, e[i].hash, 6);
    }
}
static void expect(const uint8_t* blk, unsigned n, uint64_t spill, const Ent* e, const char*) {
    sym_check(be(blk, 2) == n, "stored count");
    sym_check(be(blk + 2, 6) == spill, "stored spill offset");
    for(unsigned i = 0; i < n; i++) {
        sym_check(be(blk + 8 + 18 * i, 6) == e[i].off, "entry offset");
        sym_check(be(blk + 14 + 18 * i, 6) == e[i].size, "entry size");
        sym_check(be(blk + 20 + 18 * i, 6) == e[i].hash, "entry hash");
    }
}
static unsigned cap() { return (unsigned)sym_param("cap", 4); }
static unsigned bsz(unsigned c) {
    unsigned pad = (unsigned)sym_choose("pad", 2) * 17;
    unsigned b = 8 + 18 * c + pad;
    return b < 104 ? 104 + 0 * pad : b;
}

extern "C" void h_insert() {
    unsigned n = (unsigned)sym_choose("n", cap() + 1);
    unsigned bs = 8 + 18 * (cap() + 1);
    if(bs < 104) bs = 104;
    uint8_t blk[8 + 18 * (MAXC + 1) + 104];
    Ent e[MAXC + 2];
    uint64_t sp = sym_bits("spill", 48);
    arbitrary(blk, bs, n, sp, e);
    memset(blk + bs, 0xEE, 16);
    bucket b{bs, blk};
    sym_check(b.size() == n, "size after load");
    sym_check(b.spill() == sp, "spill after load");
    sym_check(b.empty() == (n == 0), "empty");
    sym_check(b.full() == (n >= (bs - 8) / 18), "full");
    uint64_t o = sym_bits("noff", 48), s = sym_bits("nsize", 32), h = sym_bits("nhash", 48);
    unsigned lb = b.lower_bound(h);
    sym_check(lb <= n, "lower_bound range");
    for(unsigned i = 0; i < n; i++) {
        sym_check(i < lb ? e[i].hash < h : e[i].hash >= h, "lower_bound is the first entry not below the hash");
    }
    b.insert(o, (nsize_t)s, h);
    sym_check(b.size() == n + 1, "size after insert");
    sym_check(b.spill() == sp, "spill kept");
    // position of the new entry: anywhere among equal hashes is fine; find it by content
    Ent w[MAXC + 2];
    for(unsigned i = 0; i <= n; i++) {
        auto v = b[i];
        w[i].off = v.offset;
        w[i].size = v.size;
        w[i].hash = v.hash;
    }
    for(unsigned i = 0; i < n; i++) sym_check(w[i].hash <= w[i + 1].hash, "sorted after insert");
    bool any = false;
    for(unsigned p = 0; p <= n; p++) {
        bool m = (w[p].off == o) & (w[p].size == s) & (w[p].hash == h);
        for(unsigned i = 0; i < n; i++) {
            unsigned j = i < p ? i : i + 1;
            m &= (w[j].off == e[i].off) & (w[j].size == e[i].size) & (w[j].hash == e[i].hash);
        }
        any |= m;
    }
    sym_check(any, "insert keeps every entry and adds exactly the new one");
    expect(blk, n + 1, sp, w, "insert");
    for(unsigned i = 0; i < 16; i++) sym_check(blk[bs + i] == 0xEE, "no write past the block");
    sym_observe(lb);
    sym_reach("insert");
}

extern "C" void h_erase() {
    unsigned n = 1 + (unsigned)sym_choose("n", cap());
    unsigned bs = 8 + 18 * cap();
    if(bs < 104) bs = 104;
    uint8_t blk[8 + 18 * (MAXC + 1) + 104];
    Ent e[MAXC + 2];
    uint64_t sp = sym_bits("spill", 48);
    arbitrary(blk, bs, n, sp, e);
    memset(blk + bs, 0xEE, 16);
    bucket b{bs, blk};
    unsigned k = (unsigned)sym_choose("k", n);
    b.erase(k);
    sym_check(b.size() == n - 1, "size after erase");
    Ent w[MAXC + 2];
    for(unsigned i = 0; i + 1 < n; i++) w[i] = e[i < k ? i : i + 1];
    expect(blk, n - 1, sp, w, "erase");
    for(unsigned i = 8 + 18 * (n - 1); i < bs; i++) sym_check(blk[i] == 0, "erased tail is zero");
    for(unsigned i = 0; i < 16; i++) sym_check(blk[bs + i] == 0xEE, "no write past the block");
    sym_reach("erase");
}

extern "C" void h_misc() {
    unsigned n = (unsigned)sym_choose("n", cap() + 1);
    unsigned bs = 8 + 18 * cap();
    if(bs < 104) bs = 104;
    uint8_t blk[8 + 18 * (MAXC + 1) + 104];
    Ent e[MAXC + 2];
    uint64_t sp = sym_bits("spill", 48);
    arbitrary(blk, bs, n, sp, e);
    memset(blk + bs, 0xEE, 16);
    bucket b{bs, blk};
    sym_check(b.actual_size() == 8 + 18 * n, "actual_size");
    sym_check(b.block_size() == bs, "block_size");
    uint64_t s2 = sym_bits("spill2", 48);
    b.spill(s2);
    sym_check(b.spill() == s2, "spill set");
    expect(blk, n, s2, e, "spill");
    uint8_t out[8 + 18 * MAXC + 8];
    memset(out, 0xEE, sizeof out);
    {
        ostream os(out, sizeof out);
        b.write(os);
        sym_check(os.size() == 8 + 18 * n, "compact size");
    }
    expect(out, n, s2, e, "compact write");
    for(unsigned i = 8 + 18 * n; i < sizeof out; i++) sym_check(out[i] == 0xEE, "compact write stays inside");
    b.clear();
    sym_check(b.size() == 0 && b.spill() == 0 && b.empty(), "clear");
    for(unsigned i = 0; i < bs; i++) sym_check(blk[i] == 0, "clear zeroes");
    for(unsigned i = 0; i < 16; i++) sym_check(blk[bs + i] == 0xEE, "no write past the block");
    sym_reach("misc");
}
