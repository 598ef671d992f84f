// Whole-database histories: C01, C02, C06, C07, C10, C25.
#include "store.h"
static bool present[NK_MAX];
static bool g_dup = true;
// Every key fetched (present ones exactly, absent ones absent); every present key refused as a duplicate and still
// intact afterwards.
static void check_all(store_t& db) {
    for(unsigned i = 0; i < g_nk; i++) {
        int r = do_fetch(db, i);
        sym_observe(r);
        if(present[i])
            sym_check(r == F_FOUND, "inserted key is fetched with its exact bytes");
        else
            sym_check(r == F_ABSENT, "key that was never inserted is not found");
    }
}
static void check_dups(store_t& db) {
    uint8_t k[KMAX], other[4] = {1, 2, 3, 4};
    for(unsigned i = 0; i < g_nk; i++)
        if(present[i]) {
            error_code ec;
            key_of(i, k);
            db.insert(k, other, 4, ec);
            sym_check(ec == nudb::error::key_exists, "duplicate insert reports key_exists");
        }
}
// C06: writes and truncations of the data file below the committed size are forbidden; base is the committed prefix
static uint64_t committed;
static bool ao_on = false;
static unsigned ao_n = 0;
static void ao_hook(int kind, int ino, uint64_t off, uint64_t) {
    if(!ao_on || vf[ino].name[0] != 'd') return;
    if(kind == K_PWRITE) sym_check(off >= committed, "committed bytes of the data file are never overwritten");
    if(kind == K_TRUNC) sym_check(off >= committed, "the data file is never truncated below its committed size");
    if(kind == K_UNLINK || kind == K_CREATE) sym_fail("the data file is never removed or recreated");
    ao_n++;
}
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static void start() {
    unsigned nk = P("nk", 3);
    setup_keys(nk, P("hmode", 0), P("hb", 2));
    create_db(P("bs", 104), P("lf", 50) / 100.0f);
    vf_hook = ao_hook;
    committed = vf_size(DP);
    ao_on = true;
}
// any sequence of insert(key)/flush/reopen
extern "C" void h_history() {
    start();
    unsigned nk = g_nk, steps = P("steps", 4), bs = P("bs", 104);
    nudb::context ctx;
    store_t db(ctx);
    error_code ec;
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "open succeeds");
    unsigned nxt = 0;
    for(unsigned s = 0; s < steps; s++) {
        unsigned op = (unsigned)sym_choose("op", 3);
        if(op == 0) {
            unsigned lim = nxt + 1 < nk ? nxt + 1 : nk;
            unsigned id = (unsigned)sym_choose("key", lim);
            if(id == nxt) nxt++;
            error_code e = do_insert(db, id);
            if(present[id])
                sym_check(e == nudb::error::key_exists, "duplicate insert reports key_exists");
            else
                sym_check(!e, "new key is accepted");
            present[id] = true;
        } else if(op == 1) {
            ctx.flush();
            committed = sym_concretize(vf_size(DP));
        } else {
            db.close(ec);
            sym_check(!ec, "close succeeds");
            sym_check(!vf_exists(LP), "close removes the log");
            committed = sym_concretize(vf_size(DP));
            check_format(present, nk, bs);
            db.open(DP, KP, LP, ec);
            sym_check(!ec, "reopen succeeds");
        }
    }
    check_all(db);
    db.close(ec);
    sym_check(!ec, "close succeeds");
    sym_check(!vf_exists(LP), "close removes the log");
    check_format(present, nk, bs);
    sym_check(vf_openfds() == 0, "every descriptor closed");
    sym_check(vf_misuse == 0, "no operation on a closed descriptor");
    sym_observe(vf_size(DP));
    sym_observe(vf_size(KP));
    sym_reach("history");
}
// keys 0..ni-1 inserted in order; up to maxfl flushes anywhere between; optional reopen; then everything is checked
extern "C" void h_batch() {
    start();
    unsigned nk = g_nk, ni = P("ni", nk), bs = P("bs", 104), maxfl = P("maxfl", 2), fl = 0;
    nudb::context ctx;
    store_t db(ctx);
    error_code ec;
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "open succeeds");
    unsigned every = P("every", 0), mid = P("mid", 1);
    for(unsigned i = 0; i < ni; i++) {
        error_code e = do_insert(db, i);
        sym_check(!e, "new key is accepted, whatever its hash");
        present[i] = true;
        bool f = every ? (i + 1) % every == 0 : fl < maxfl && sym_choose("flush", 2);
        if(f) {
            fl++;
            ctx.flush();
            committed = sym_concretize(vf_size(DP));
            if(mid > 1) {
                check_all(db);
                check_dups(db);
            }
        }
    }
    if(mid) {
        check_all(db);
        check_dups(db);
    }
    sym_check(db.appnum() == 7 && db.key_size() == g_ks && db.block_size() == bs, "accessors");
    if(P("flushend", 0)) {
        ctx.flush();
        committed = sym_concretize(vf_size(DP));
        check_format(present, nk, bs);
        check_all(db);
    }
    db.close(ec);
    sym_check(!ec, "close succeeds");
    committed = sym_concretize(vf_size(DP));
    sym_check(!vf_exists(LP), "close removes the log");
    check_format(present, nk, bs);
    sym_check(!db.is_open(), "closed");
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "reopen succeeds");
    check_all(db);
    check_dups(db);
    check_all(db);
    sym_check(vf_size(DP) == committed, "duplicates write nothing");
    db.close(ec);
    sym_check(!ec, "second close succeeds");
    check_format(present, nk, bs);
    sym_check(vf_openfds() == 0, "every descriptor closed");
    sym_check(vf_misuse == 0, "no operation on a closed descriptor");
    uint64_t dn = sym_concretize(vf_size(DP)), kn = sym_concretize(vf_size(KP));
    sym_observe(dn);
    sym_observe(kn);
    const uint8_t* d = vf_data(DP);
    bool sp = false;
    for(uint64_t p = DAT_HDR; p < dn;) {
        uint64_t z = be_at(d + p, 6);
        if(z)
            p += 6 + g_ks + z;
        else {
            sp = true;
            p += 8 + be_at(d + p + 6, 2);
        }
    }
    if(sp) sym_reach("spill");
    if(kn > 2 * bs) sym_reach("split");
    if(sp && kn > 2 * bs) sym_reach("spill and split");
    sym_reach("batch");
}
