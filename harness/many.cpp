// Hundreds of items: buckets with more than 255 entries, long spill records, many buckets. C01, C02, C07, C11, C15,
// C17.
#define VF_CAP (1 << 18)
#define MANY_KEYS 4096
#define VMAX 8
#define KMAX 4
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static bool present[NK_MAX];
static unsigned nk, ni;
// groups of equal hashes; the hash bits that do not choose the bucket are free
static void setup(unsigned groups) {
    unsigned shift = P("shift", 16);
    g_ks = 4;
    g_nk = nk;
    uint64_t top = (P("freehash", 1) ? sym_bits("hash", 40) : 0xA5) << 24;
    for(unsigned i = 0; i < nk; i++) {
        unsigned g = i % groups;
        g_h[0][i] = top | (uint64_t)g << shift;
        g_h[1][i] = top | (uint64_t)(g * 5 % groups) << shift;
        g_vs[i] = 1 + i % 3;
        g_val[i][0] = (uint8_t)(i * 29);
        g_val[i][1] = (uint8_t)(i >> 8);
        g_val[i][2] = 0x77;
        sym_bytes(g_val[i], g_vs[i], "value");
    }
}
static void check_all(store_t& db, unsigned step) {
    for(unsigned i = 0; i < nk; i += i + step < ni ? step : 1) {
        int r = do_fetch(db, i);
        sym_check(r == (present[i] ? F_FOUND : F_ABSENT), "every key is fetched exactly");
        if(present[i]) sym_check(do_insert(db, i) == nudb::error::key_exists, "duplicate insert reports key_exists");
    }
}
// many items, flushed every `every`, then closed, reopened and looked at; then rekeyed and verified
extern "C" void h_many() {
    nk = P("nk", 302), ni = P("ni", 300);
    unsigned bs = P("bs", 8192), every = P("every", 100), step = P("step", 37);
    setup(P("groups", 1));
    create_db(bs, P("lf", 90) / 100.0f);
    nudb::context ctx;
    error_code ec;
    {
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open succeeds");
        for(unsigned i = 0; i < ni; i++) {
            sym_check(!do_insert(db, i), "new key is accepted, whatever its hash");
            present[i] = true;
            if((i + 1) % every == 0) {
                ctx.flush();
                check_all(db, step);
            }
        }
        check_all(db, step);
        db.close(ec);
        sym_check(!ec, "close succeeds");
        check_format(present, nk, bs);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "reopen succeeds");
        check_all(db, step);
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    uint64_t kn = sym_concretize(vf_size(KP));
    if(kn > 2 * bs) sym_reach("split");
    if(P("tools", 1)) {
        nudb::verify_info info;
        nudb::verify<SymHasher>(info, DP, KP, P("fast", 1) ? 1 << 20 : 0, nudb::no_progress{}, ec);
        sym_check(!ec, "verify accepts the database");
        sym_check(info.value_count == ni && info.key_count == ni, "counts");
        if(info.spill_count) sym_reach("spill");
        unsigned seen = 0, wrong = 0;
        nudb::visit(
            DP,
            [&](void const* k, std::size_t ks, void const* v, std::size_t vs, error_code&) {
                unsigned id = id_of((const uint8_t*)k);
                wrong |= id >= ni || ks != 4 || vs != g_vs[id] || memcmp(v, g_val[id], vs);
                seen++;
            },
            nudb::no_progress{}, ec);
        sym_check(!ec && seen == ni && !wrong, "visit shows every item");
        error_code xe;
        nudb::posix_file::erase(KP, xe);
        unsigned nbs = P("nbs", 8192);
        nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, nbs, P("nlf", 50) / 100.0f, ni, 1 << 20, ec,
                                                 nudb::no_progress{});
        sym_check(!ec, "rekey succeeds");
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open succeeds");
        check_all(db, step);
        db.close(ec);
        sym_check(!ec, "close succeeds");
        nudb::verify<SymHasher>(info, DP, KP, 1 << 20, nudb::no_progress{}, ec);
        sym_check(!ec && info.value_count == ni, "verify accepts the rekeyed database");
    }
    sym_observe(vf_size(DP));
    sym_observe(kn);
    sym_reach("many");
}
