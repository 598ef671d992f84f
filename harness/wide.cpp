// Unusual sizes: key sizes around 255, block sizes up to 65535 and values beyond 64 KB: C01, C02, C07, C15, C17, C18.
#define VF_CAP (1 << 20)
#define VMAX 131072
#define KMAX 65536
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static bool present[NK_MAX];
struct Cfg {
    unsigned ks, bs, vs[4];
};
static const Cfg CFG[] = {
    {255, 104, {255, 256, 257, 1}},      {256, 1000, {65535, 1, 65536, 3}}, {257, 4096, {70001, 2, 2, 5}},
    {1, 8192, {4096, 4097, 8191, 8192}}, {2, 32768, {1, 128, 32768, 7}},    {65535, 104, {1, 65537, 9, 5}},
    {4096, 65535, {131071, 1, 1, 1}},    {16, 255, {254, 255, 256, 65535}}, {300, 256, {127, 128, 129, 130}},
};
static uint64_t one_hash;
static const Cfg* cf;
static void setup() {
    cf = &CFG[sym_choose("sizes", P("ncfg", 9))];
    g_ks = cf->ks;
    g_nk = 4;
    one_hash = sym_u64("hash");
    for(unsigned i = 0; i < g_nk; i++) {
        g_h[0][i] = one_hash ^ (i == 3 ? 1ull << 40 : 0); // the last key has another hash
        g_h[1][i] = g_h[0][i] * 3;
        g_vs[i] = cf->vs[i];
        for(unsigned j = 0; j < g_vs[i]; j++) g_val[i][j] = (uint8_t)(j * 31 + (j >> 8) * 7 + i + 1);
        // free bytes at the ends and around the middle
        unsigned n = g_vs[i] < 2 ? g_vs[i] : 2;
        sym_bytes(g_val[i], n, "value");
        if(g_vs[i] > 4) sym_bytes(g_val[i] + g_vs[i] - 2, 2, "value");
        if(g_vs[i] > 8) sym_bytes(g_val[i] + g_vs[i] / 2, 2, "value");
    }
}
static void check_all(store_t& db) {
    for(unsigned i = 0; i < g_nk; i++) {
        int r = do_fetch(db, i);
        sym_check(r == (present[i] ? F_FOUND : F_ABSENT), "every key is fetched exactly, whatever the sizes");
        if(present[i]) sym_check(do_insert(db, i) == nudb::error::key_exists, "duplicate insert reports key_exists");
    }
}
static void fill(unsigned ni, bool look) {
    error_code ec;
    create_db(cf->bs, 0.9f);
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "open succeeds");
    sym_check(db.key_size() == g_ks && db.block_size() == cf->bs, "sizes are reported");
    for(unsigned i = 0; i < ni; i++) {
        sym_check(!do_insert(db, i), "insert succeeds, whatever the sizes");
        present[i] = true;
        if(look && i == 1) {
            check_all(db);
            ctx.flush();
            check_all(db);
        }
    }
    if(look) {
        check_all(db);
        ctx.flush();
        check_all(db);
    }
    db.close(ec);
    sym_check(!ec, "close succeeds");
    sym_check(!vf_exists(LP), "close removes the log");
    check_format(present, g_nk, cf->bs);
    if(look) {
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "reopen succeeds");
        check_all(db);
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    sym_check(vf_openfds() == 0 && vf_misuse == 0, "descriptors");
}
extern "C" void h_wide() {
    setup();
    fill(P("ni", 3), true);
    sym_reach("wide");
}
static unsigned g_n;
struct Prog {
    void operator()(uint64_t, uint64_t) const {}
};
// verify, visit and rekey on the same sizes
extern "C" void h_wide_tools() {
    setup();
    unsigned ni = P("ni", 3);
    fill(ni, false);
    error_code ec;
    uint64_t bytes = 0;
    for(unsigned i = 0; i < ni; i++) bytes += g_vs[i];
    for(int pass = 0; pass < 2; pass++) {
        nudb::verify_info vi;
        nudb::verify<SymHasher>(vi, DP, KP, pass ? 1000000 : 0, Prog{}, ec);
        sym_check(!ec, "verify accepts the database");
        sym_check(vi.value_count == ni && vi.value_bytes == bytes && vi.key_count == ni, "verify counts");
        sym_check(vi.key_size == g_ks && vi.block_size == cf->bs, "verify sizes");
    }
    g_n = 0;
    nudb::visit(
        DP,
        [](void const* k, std::size_t kn, void const* v, std::size_t vn, error_code&) {
            sym_check(kn == g_ks, "key size");
            unsigned id = id_of((const uint8_t*)k);
            sym_check(id < g_nk && present[id] && !(g_n >> id & 1), "exact key, each item once");
            g_n |= 1u << id;
            unsigned d = 0;
            sym_check(vn == g_vs[id], "value size");
            for(unsigned i = 0; i < vn; i++) d |= ((const uint8_t*)v)[i] ^ g_val[id][i];
            sym_check(d == 0, "exact value");
        },
        Prog{}, ec);
    sym_check(!ec && g_n == (1u << ni) - 1, "visit reports every item");
    vf[vf_find(KP)].linked = false;
    static const unsigned bss[] = {104, 300, 65535};
    unsigned bs = bss[sym_choose("new_block_size", 3)];
    nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, bs, 0.5f, ni, sym_choose("buffer", 2) ? 200000 : 1, ec,
                                             Prog{});
    sym_check(!ec, "rekey succeeds");
    check_format(present, g_nk, bs, 1);
    {
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open succeeds");
        sym_check(db.block_size() == bs, "block size");
        check_all(db);
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    sym_reach("wide tools");
}
