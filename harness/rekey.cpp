// Rekey: C15 (equivalence), C16 (crash and fault safety), C06 (data file untouched).
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static bool present[NK_MAX];
static unsigned ni;
static uint8_t* g_img;
static uint64_t g_imgn;
static unsigned nbs;
static float nlf;
static uint64_t nic;
static size_t nbuf;
static uint64_t g_off[NK_MAX];
static void data_same(const char* m) {
    sym_check(vf_exists(DP) && vf_size(DP) >= g_imgn && !memcmp(vf_data(DP), g_img, g_imgn), m);
}
static void data_restored(const char* m) {
    data_same(m);
    sym_check(vf_size(DP) == g_imgn, m);
}
static void setup() {
    ni = P("ni", 4);
    unsigned nk = ni + P("extra", 1);
    setup_keys(nk, P("hmode", 0), P("hb", 2), true);
    create_db(P("bs", 104), P("lf", 90) / 100.0f);
    unsigned every = P("every", 0);
    {
        error_code ec;
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        for(unsigned i = 0; i < ni; i++) {
            error_code e = do_insert(db, i);
            sym_check(!e, "insert succeeds");
            present[i] = true;
            if(every && (i + 1) % every == 0) ctx.flush();
        }
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    g_imgn = sym_concretize(vf_size(DP));
    g_img = (uint8_t*)malloc(g_imgn);
    memcpy(g_img, vf_data(DP), g_imgn);
    for(uint64_t p = DAT_HDR; p < g_imgn;) {
        uint64_t z = be_at(g_img + p, 6);
        if(z)
            p += 6 + g_ks + z;
        else {
            sym_reach("old spill record");
            p += 8 + be_at(g_img + p + 6, 2);
        }
    }
    vf[vf_find(KP)].linked = false; // the key file is lost
    static const uint16_t bss[] = {104, 122, 200, 4096};
    nbs = bss[sym_choose("new_block_size", P("nbss", 2))];
    static const float lfs[] = {0.5f, 0.9f, 0.1f};
    nlf = lfs[sym_choose("new_load_factor", P("nlfs", 2))];
    nic = P("minic", 1) + sym_choose("item_count", P("nic", 3)) * P("icstep", 4);
    static const uint16_t bufs[] = {1, 1, 2, 1000};
    unsigned bi = (unsigned)sym_choose("buffer", P("nbufs", 4));
    nbuf = bi == 0 ? 1 : bi == 3 ? 100000 : bufs[bi] * nbs;
}
static void do_rekey(error_code& ec) {
    nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, nbs, nlf, nic, nbuf, ec, nudb::no_progress{});
}
static uint64_t want_buckets() {
    uint64_t cap = (nbs - 8) / 18;
    uint64_t b = (uint64_t)__builtin_ceilf(nic / (cap * nlf));
    return b < 1 ? 1 : b;
}
static void usable() {
    check_format(present, g_nk, nbs, 1);
    sym_check(vf_size(KP) == (want_buckets() + 1) * nbs,
              "the key file has the buckets the item count and load factor ask for");
    data_same("records already in the data file are unchanged");
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "the rekeyed database opens");
    sym_check(db.block_size() == nbs, "block size");
    for(unsigned i = 0; i < g_nk; i++) {
        int r = do_fetch(db, i);
        sym_check(r == (present[i] ? F_FOUND : F_ABSENT),
                  "after rekey every item is found with its value and no other");
    }
    bool now[NK_MAX];
    for(unsigned i = 0; i < g_nk; i++) {
        now[i] = true;
        if(!present[i]) {
            error_code e = do_insert(db, i);
            sym_check(!e, "the rekeyed database accepts inserts");
        }
    }
    db.close(ec);
    sym_check(!ec, "close succeeds");
    if(g_nk > ni) {
        check_format(now, g_nk, nbs, 1);
    }
}
extern "C" void h_rekey() {
    setup();
    error_code ec;
    do_rekey(ec);
    sym_check(!ec, "rekey succeeds");
    sym_check(!vf_exists(LP), "rekey removes its log");
    sym_check(vf_openfds() == 0, "descriptors closed");
    sym_check(vf_misuse == 0, "no operation on a closed descriptor");
    if(vf_size(DP) != g_imgn) sym_reach("new spills");
    if(want_buckets() * nbs > nbuf) sym_reach("several passes");
    if(P("verify", 1)) {
        nudb::verify_info vi;
        error_code ve;
        nudb::verify<SymHasher>(vi, DP, KP, 0, nudb::no_progress{}, ve);
        sym_check(!ve, "verify accepts the rekeyed database");
        sym_check(vi.key_count == ni && vi.value_count == ni, "verify counts every item");
    }
    usable();
    sym_observe(vf_size(KP));
    sym_observe(vf_size(DP));
    sym_reach("rekey");
}
// existing key file or log file: refused, nothing touched
extern "C" void h_rekey_refuse() {
    setup();
    unsigned w = (unsigned)sym_choose("exists", 2);
    const char* p = w ? LP : KP;
    int i = vf_new(p);
    vf_setsize(i, 5, 5);
    memcpy(vf_d[i], "hello", 5);
    error_code ec;
    do_rekey(ec);
    sym_check((bool)ec, "rekey refuses to overwrite an existing key or log file");
    sym_check(vf_exists(p) && vf_size(p) == 5 && !memcmp(vf_data(p), "hello", 5), "the existing file is untouched");
    data_restored("the data file is untouched");
    if(w) {
        sym_check(ec == nudb::error::log_file_exists, "the error says so");
        sym_check(!vf_exists(KP), "no key file is created");
    } else
        sym_check(!vf_exists(LP), "no log is created");
    sym_reach("refused");
}
static bool reported;
static void proc() {
    error_code ec;
    do_rekey(ec);
    sym_check(!ec, "rekey succeeds");
    reported = true;
    if(P("tail", 1)) model_nanosleep(nullptr, nullptr);
    error_code e2;
    nudb::posix_file f;
    f.create(nudb::file_mode::append, "x", e2);
}
static void aftermath(bool full) {
    error_code ec;
    nudb::recover<SymHasher, nudb::posix_file>(DP, KP, LP, ec);
    data_same("the data file keeps its contents");
    nudb::context ctx;
    bool opened = false;
    {
        error_code e;
        store_t db(ctx);
        db.open(DP, KP, LP, e);
        opened = !e;
        if(!e) db.close(e);
    }
    if(full) sym_check(opened, "a rekey that reported success survives the crash");
    if(opened) {
        sym_reach("completed");
        check_format(present, g_nk, nbs, 1);
        usable();
    } else {
        data_restored("an interrupted rekey leaves the data file as it was");
        sym_check(!vf_exists(KP), "the partial key file is removed");
        sym_check(!vf_exists(LP), "the log is removed");
        if(P("retry", 1)) {
            error_code e;
            do_rekey(e);
            sym_check(!e, "rekey can be run again");
            usable();
        }
        sym_reach("rolled back");
    }
    sym_observe(opened);
    sym_observe(vf_size(DP));
}
extern "C" void h_rekey_crash() {
    setup();
    reported = false;
    bool c = vf_run_crashing(proc, P("limit", 2000));
    if(!c) sym_kill();
    vf_after_crash();
    unsigned n = P("again", 0);
    (void)n;
    vf_record = false;
    if(reported) sym_reach("after success");
    aftermath(reported);
    sym_reach("crash");
}
static void rproc() {
    error_code ec;
    nudb::recover<SymHasher, nudb::posix_file>(DP, KP, LP, ec);
}
extern "C" void h_rekey_crash_recover() {
    setup();
    reported = false;
    bool c = vf_run_crashing(proc, P("limit", 2000));
    if(!c) sym_kill();
    vf_after_crash();
    c = vf_run_crashing(rproc, P("rlimit", 300));
    if(!c) sym_kill();
    vf_after_crash();
    vf_record = false;
    aftermath(reported);
    sym_reach("crash");
}
extern "C" void h_rekey_fault() {
    setup();
    vf_fault_at = sym_below("fault_at", P("limit", 600));
    vf_fault_mode = sym_choose("fault_mode", 3);
    vf_fault_on = true;
    error_code ec;
    do_rekey(ec);
    if(!vf_faults) {
        sym_reach("past the last operation");
        sym_kill();
    }
    vf_fault_on = false;
    sym_check((bool)ec, "a failure during rekey is reported");
    int v = ec.value();
    sym_check(ec.category() == boost::system::system_category() && (v == EIO || v == ENOSPC || v == EACCES),
              "the reported error is the injected one");
    data_same("a failed rekey does not change existing data");
    sym_check(vf_openfds() == 0, "descriptors closed");
    sym_reach("rekey failed");
    if(!vf_exists(KP)) {
        data_restored("nothing written when the key file was never created");
        sym_check(!vf_exists(LP), "no log");
        error_code e;
        do_rekey(e);
        sym_check(!e, "rekey can be run again");
        usable();
        sym_reach("never started");
    } else
        aftermath(false);
}
