// Large files: data files and key files of any size up to the 48-bit limit, stored sparsely: C01, C02, C03, C07, C10,
// C14.
#define VF_CAP (1 << 21)
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static bool comm[NK_MAX], pend[NK_MAX];
struct Cfg {
    unsigned bs;
    uint64_t buckets;
    float lf;
};
// bucket counts whose key files end near 2^31, 2^32 and far beyond, at and beside powers of two
static const Cfg CFG[] = {
    {104, 1, 0.5f},
    {104, 1ull << 26, 0.5f},
    {104, 41297760, 0.5f},
    {4096, (1ull << 20) - 1, 0.004f},
    {104, (1ull << 32) - 4, 0.5f},
    {104, 1ull << 31, 0.2f},
    {65535, 65535, 0.0002f},
    {122, 17603000, 0.5f},
    {60000, (1ull << 32) - 4, 0.0002f},
    {4096, (1ull << 19) - 2, 0.004f},
};
static const unsigned NCFG = sizeof CFG / sizeof *CFG;
static const Cfg* cf;
// stored key file blocks: [0, LOW), [mid0, mid0 + MID), [high0, ...)
static const uint64_t LOW = 5, MID = 6, TAIL = 4;
static uint64_t mid0, high0;
static uint64_t logical_block(uint64_t sb) {
    if(!mid0) return sb;
    return sb < LOW ? sb : sb < LOW + MID ? mid0 + (sb - LOW) : high0 + (sb - LOW - MID);
}
static uint64_t stored_block(uint64_t b) {
    if(!mid0) return b;
    if(b < LOW) return b;
    if(b >= mid0 && b < mid0 + MID) return b - mid0 + LOW;
    sym_check(b >= high0, "harness: bucket is stored");
    return b - high0 + LOW + MID;
}
static void put_be(uint8_t* p, uint64_t v, unsigned n) {
    for(unsigned i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * (n - 1 - i)));
}
// keys 0..nk-1 get hashes whose buckets are stored; the high hash bits are free
static void setup(unsigned nk) {
    cf = &CFG[P("onecfg", 99) < NCFG ? P("onecfg", 0) : sym_choose("file", P("ncfg", NCFG))];
    uint64_t B = cf->buckets;
    unsigned bs = cf->bs;
    g_nk = nk;
    unsigned lowbits = 0;
    uint64_t t[3] = {0, 0, 0};
    if(B > 1) {
        uint64_t mod = ref_pow2(B), m = mod / 2;
        while(1ull << lowbits < m) lowbits++;
        // the next splits are of n1, n1 + 1, ...; the bucket before them and the last bucket have equal low bits
        uint64_t n1 = B == mod ? 0 : B - m;
        t[0] = n1;
        t[1] = n1 + 1;
        t[2] = (B - 1) & (m - 1);
        mid0 = (B == mod ? m : n1) + 1 - 3;
        high0 = B + 1 - TAIL;
    }
    for(unsigned i = 0; i < nk; i++) {
        uint64_t free = sym_u64("hash") & 0xffffffffffffull;
        uint64_t low = t[lowbits ? sym_choose("bucket", P("nt", 3)) : 0];
        uint64_t h = (free >> lowbits << lowbits) | low;
        if(P("eq", 0) && i) sym_assume(h == hash48(0)); // all in one bucket
        g_h[0][i] = h << 16;
        g_h[1][i] = ~g_h[0][i];
        g_vs[i] = 1 + (i * 7) % 5;
        sym_bytes(g_val[i], g_vs[i], "value");
    }
    create_db(bs, cf->lf);
    // the large record: its value is the hole
    g_gap = sym_bits("hole", 47);
    sym_assume(g_gap > 0);
    int d = vf_find(DP), k = vf_find(KP);
    unsigned hdr = DAT_HDR + 6 + g_ks;
    g_gapend = hdr + g_gap;
    put_be(vf_d[d] + DAT_HDR, g_gap, 6);
    for(unsigned i = 0; i < g_ks; i++) vf_d[d][DAT_HDR + 6 + i] = 0xEE;
    vf_setsize(d, hdr, hdr);
    vf_x[d][0] = {0, hdr, 0};
    vf_x[d][1] = {hdr + g_gap, ~0ull, hdr};
    vf_nx[d] = 2;
    uint64_t bigb = B == 1 ? 0 : mid0 + 1; // bucket number of the large record (its block is mid0 + 2)
    g_bighash = (sym_u64("hash") & 0xffffffffffffull) >> 47 << 47;
    if(B > 1) {
        uint64_t mod = ref_pow2(B);
        g_bighash = (g_bighash & ~(mod - 1)) | bigb;
    }
    for(unsigned i = 0; i < nk; i++) sym_assume(hash48(i) != g_bighash);
    if(mid0) {
        uint64_t n = (LOW + MID + TAIL) * bs;
        memset(vf_d[k] + bs, 0, n - bs);
        vf_setsize(k, n, n);
        vf_x[k][0] = {0, LOW * bs, 0};
        vf_x[k][1] = {mid0 * bs, MID * bs, LOW * bs};
        vf_x[k][2] = {high0 * bs, ~0ull, (LOW + MID) * bs};
        vf_nx[k] = 3;
        g_logical_block = logical_block;
    }
    uint8_t* q = vf_d[k] + stored_block(bigb + 1) * bs;
    put_be(q, 1, 2);
    put_be(q + 8, DAT_HDR, 6);
    put_be(q + 14, g_gap, 6);
    put_be(q + 20, g_bighash, 6);
}
static void check_all(store_t& db) {
    uint8_t k[KMAX], other[4] = {1, 2, 3, 4};
    for(unsigned i = 0; i < g_nk; i++) {
        bool p = comm[i] || pend[i];
        int r = do_fetch(db, i);
        sym_check(r == (p ? F_FOUND : F_ABSENT), "every key is fetched exactly, however large the files");
        if(p) {
            error_code ec;
            key_of(i, k);
            db.insert(k, other, 4, ec);
            sym_check(ec == nudb::error::key_exists, "duplicate insert reports key_exists, however large the files");
        }
    }
}
extern "C" void h_huge() {
    unsigned nk = P("nk", 4), ni = P("ni", 3), fl = 0;
    setup(nk);
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "open succeeds");
    for(unsigned i = 0; i < ni; i++) {
        sym_check(!do_insert(db, i), "new key is accepted");
        pend[i] = true;
        if(fl < P("maxfl", 1) && sym_choose("flush", 2)) {
            fl++;
            ctx.flush();
        }
    }
    check_all(db);
    db.close(ec);
    sym_check(!ec, "close succeeds");
    sym_check(!vf_exists(LP), "close removes the log");
    check_format(pend, nk, cf->bs);
    if(vf_size(KP) > (LOW + MID + TAIL) * cf->bs) sym_reach("split");
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "reopen succeeds");
    check_all(db);
    db.close(ec);
    sym_check(!ec, "close succeeds");
    check_format(pend, nk, cf->bs);
    sym_check(vf_openfds() == 0 && vf_misuse == 0, "descriptors");
    if(cf->buckets >= 1ull << 31) sym_reach("2^31 buckets");
    sym_reach("huge");
}
static unsigned nb, nn;
static void victim() {
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "open succeeds");
    for(unsigned i = nb; i < nb + nn; i++) {
        sym_check(!do_insert(db, i), "insert succeeds");
        pend[i] = true;
    }
    db.close(ec);
    sym_check(!ec, "close succeeds");
    for(unsigned i = nb; i < nb + nn; i++) comm[i] = true;
}
// a commit into large files is interrupted; recovery
extern "C" void h_huge_crash() {
    nb = P("nb", 1);
    nn = P("nn", 2);
    setup(nb + nn);
    error_code ec;
    {
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open succeeds");
        for(unsigned i = 0; i < nb; i++) {
            sym_check(!do_insert(db, i), "insert succeeds");
            comm[i] = true;
        }
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    if(!vf_run_crashing(victim, P("limit", 200))) sym_kill();
    vf_after_crash();
    vf_record = false;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "database opens after a crash");
    bool got[NK_MAX], any = false, all = true;
    for(unsigned i = 0; i < g_nk; i++) {
        int r = do_fetch(db, i);
        sym_check(r == F_FOUND || r == F_ABSENT, "fetch after recovery gives the right bytes or key_not_found");
        got[i] = r == F_FOUND;
        if(comm[i])
            sym_check(got[i], "an item of a completed commit survives the crash");
        else {
            any |= got[i];
            all &= got[i];
        }
    }
    sym_check(any ? all : true, "the interrupted commit is kept as a whole or not at all");
    db.close(ec);
    sym_check(!ec, "close after recovery succeeds");
    check_format(got, g_nk, cf->bs);
    sym_check(!vf_exists(LP), "no log file remains");
    sym_reach(any ? "kept" : "rolled back");
    sym_reach("crash");
}
// the log of an interrupted rekey on a large data file: recovery cuts the data file back and removes key file and log
extern "C" void h_huge_rekey_log() {
    setup(1);
    error_code ec;
    {
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open succeeds");
        sym_check(!do_insert(db, 0), "insert succeeds");
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    int d = vf_find(DP);
    uint64_t committed = sym_concretize(vf_size(DP)), extra = sym_choose("extra", 40);
    uint8_t save[256];
    sym_check(committed <= sizeof save, "harness bound");
    memcpy(save, vf_d[d], committed);
    sym_bytes(vf_d[d] + committed, extra, "spills");
    vf_setsize(d, committed + extra, committed + extra);
    // a new key file, complete or not
    int k = vf_find(KP);
    vf_nx[k] = 0;
    uint64_t kn = sym_choose("key_file", 3) ? 2 * cf->bs : 105;
    vf_setsize(k, kn, kn);
    int l = vf_new(LP);
    uint8_t* q = vf_d[l];
    memcpy(q, "nudb.log", 8);
    put_be(q + 8, 2, 2);
    put_be(q + 10, 42, 8);
    put_be(q + 18, 7, 8);
    put_be(q + 26, g_ks, 2);
    uint64_t salt = sym_u64("salt");
    put_be(q + 28, salt, 8);
    uint8_t le[8];
    for(int i = 0; i < 8; i++) le[i] = (uint8_t)(salt >> (8 * i));
    put_be(q + 36, SymHasher(salt)(le, 8), 8);
    put_be(q + 44, cf->bs, 2);
    put_be(q + 46, 0, 8);
    put_be(q + 54, vf_logsize(d, committed), 8);
    vf_setsize(l, LOG_HDR, LOG_HDR);
    nudb::recover<SymHasher, nudb::posix_file>(DP, KP, LP, ec);
    sym_check(!ec, "recovery of an interrupted rekey succeeds");
    sym_check(!vf_exists(LP) && !vf_exists(KP), "key file and log are gone");
    sym_check(vf_size(DP) == committed && !memcmp(vf_d[d], save, committed), "the data file is cut back exactly");
    sym_reach("rekey log");
}
