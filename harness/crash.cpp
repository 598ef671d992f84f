// Crash at any file operation, with lost and torn unsynced writes, then recovery: C03, C04, C06.
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static unsigned nb, nn, every;
static bool comm[NK_MAX], pend[NK_MAX];
static unsigned stage; // comm: in a completed commit; pend: inserted since
static uint8_t* g_img;
static uint64_t g_imgn;
// the data file's committed prefix, as of the last completed commit
static void snapshot() {
    free(g_img);
    g_imgn = sym_concretize(vf_size(DP));
    g_img = (uint8_t*)malloc(g_imgn);
    memcpy(g_img, vf_data(DP), g_imgn);
}
static void check_prefix(const char* m) {
    sym_check(vf_exists(DP) && vf_size(DP) >= g_imgn, m);
    sym_check(!memcmp(vf_data(DP), g_img, g_imgn), m);
}
static void committed_now() {
    for(unsigned i = 0; i < g_nk; i++)
        if(pend[i]) {
            comm[i] = true;
            pend[i] = false;
        }
    snapshot();
}
static void victim() {
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "open succeeds");
    stage = 1;
    for(unsigned i = nb; i < nb + nn; i++) {
        error_code e = do_insert(db, i);
        sym_check(!e, "insert succeeds");
        pend[i] = true;
        if(every && (i - nb + 1) % every == 0) {
            stage = 2;
            ctx.flush();
            committed_now();
            stage = 1;
        }
    }
    stage = 3;
    db.close(ec);
    sym_check(!ec, "close succeeds");
    committed_now();
    stage = 4;
}
static void recover_proc() {
    error_code ec;
    nudb::recover<SymHasher, nudb::posix_file>(DP, KP, LP, ec);
    sym_check(!ec, "recovery succeeds");
    stage = 10;
}
// after the last crash: open (which recovers), look at every key, close, parse the files
static void aftermath(unsigned bs) {
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "database opens after a crash");
    check_prefix("committed data file bytes survive the crash");
    bool got[NK_MAX];
    bool any = false, all = true;
    for(unsigned i = 0; i < g_nk; i++) {
        int r = do_fetch(db, i);
        sym_check(r == F_FOUND || r == F_ABSENT, "fetch after recovery gives the right bytes or key_not_found");
        got[i] = r == F_FOUND;
        if(comm[i])
            sym_check(got[i], "an item of a completed commit survives the crash");
        else if(pend[i]) {
            any |= got[i];
            all &= got[i];
        } else
            sym_check(!got[i], "no item appears that was never inserted");
    }
    sym_check(any ? all : true, "the interrupted commit is kept as a whole or not at all");
    // still usable: insert what is missing
    if(P("after", 1))
        for(unsigned i = 0; i < nb + nn; i++)
            if(!got[i]) {
                error_code e = do_insert(db, i);
                sym_check(!e, "the recovered database accepts inserts");
                got[i] = true;
            }
    db.close(ec);
    sym_check(!ec, "close after recovery succeeds");
    check_format(got, g_nk, bs);
    sym_check(!vf_exists(LP), "no log file remains");
    check_prefix("committed data file bytes stay unchanged");
    sym_observe(vf_size(DP));
    sym_observe(vf_size(KP));
    sym_observe(any);
    sym_reach(any ? "kept" : "rolled back");
    if(stage == 3 || stage == 2) sym_reach("during commit");
}
static unsigned setup() {
    nb = P("nb", 1);
    nn = P("nn", 2);
    every = P("every", 0);
    unsigned bs = P("bs", 104);
    setup_keys(nb + nn + P("extra", 1), P("hmode", 0), P("hb", 2));
    create_db(bs, P("lf", 90) / 100.0f);
    {
        error_code ec;
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        for(unsigned i = 0; i < nb; i++) {
            error_code e = do_insert(db, i);
            sym_check(!e, "insert succeeds");
            pend[i] = true;
        }
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    committed_now();
    return bs;
}
extern "C" void h_crash() {
    unsigned bs = setup();
    bool c = vf_run_crashing(victim, P("limit", 2000));
    if(!c) sym_kill();
    vf_after_crash();
    vf_record = false;
    aftermath(bs);
    sym_reach("crash");
}
// create returned, and then the machine stops at any moment: right away, or while the database is first used
extern "C" void h_created() {
    nn = P("nn", 2);
    every = P("every", 0);
    unsigned bs = P("bs", 104);
    setup_keys(nn + P("extra", 1), P("hmode", 0), P("hb", 2));
    vf_record = true;
    create_db(bs, P("lf", 90) / 100.0f);
    snapshot();
    if(sym_choose("use", 2)) {
        bool c = vf_run_crashing(victim, P("limit", 2000));
        if(!c) sym_kill();
        sym_reach("used");
    } else
        sym_reach("unused");
    vf_after_crash();
    vf_record = false;
    aftermath(bs);
    sym_reach("crash");
}
// crash, then recovery itself crashes (any number of operations in), then everything is checked
extern "C" void h_crash_recover() {
    unsigned bs = setup();
    bool c = vf_run_crashing(victim, P("limit", 2000));
    if(!c) sym_kill();
    vf_after_crash();
    unsigned n = P("again", 1);
    for(unsigned k = 0; k < n; k++) {
        c = vf_run_crashing(recover_proc, P("rlimit", 300));
        if(!c) sym_kill();
        vf_after_crash();
        sym_reach("recovery interrupted");
    }
    vf_record = false;
    aftermath(bs);
    sym_reach("crash");
}
