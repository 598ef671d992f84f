// One failing file operation (or every operation from some point on) during open, insert, fetch, flush, close and
// recovery: C05, C04, C25.
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static unsigned nb, nn, every;
static bool comm[NK_MAX], pend[NK_MAX];
static uint8_t* g_img;
static uint64_t g_imgn;
static void snapshot() {
    free(g_img);
    g_imgn = sym_concretize(vf_size(DP));
    g_img = (uint8_t*)malloc(g_imgn);
    memcpy(g_img, vf_data(DP), g_imgn);
}
static void committed_now() {
    for(unsigned i = 0; i < g_nk; i++)
        if(pend[i]) {
            comm[i] = true;
            pend[i] = false;
        }
    snapshot();
}
static unsigned setup() {
    nb = P("nb", 1);
    nn = P("nn", 2);
    every = P("every", 0);
    unsigned bs = P("bs", 104);
    setup_keys(nb + nn + P("extra", 1), P("hmode", 0), P("hb", 2));
    create_db(bs, P("lf", 90) / 100.0f);
    {
        error_code ec;
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        for(unsigned i = 0; i < nb; i++) {
            error_code e = do_insert(db, i);
            sym_check(!e, "insert succeeds");
            pend[i] = true;
        }
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    committed_now();
    return bs;
}
// an injected failure comes back as the errno it was given
static bool injected(const error_code& e) {
    int v = e.value();
    return e.category() == boost::system::system_category() && (v == EIO || v == ENOSPC || v == EACCES);
}
static void arm(unsigned limit) {
    vf_fault_at = sym_below("fault_at", limit);
    vf_fault_mode = sym_choose("fault_mode", P("modes", 3));
    vf_fault_on = true;
}
static void disarm() { vf_fault_on = false; }
static unsigned F;
static void mark() { F = vf_faults; }
static bool faulted() { return vf_faults != F; }
static void final_check(unsigned bs) {
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "the database opens once the fault is gone");
    sym_check(vf_size(DP) >= g_imgn && !memcmp(vf_data(DP), g_img, g_imgn), "committed data file bytes are unchanged");
    bool got[NK_MAX];
    bool any = false, all = true;
    for(unsigned i = 0; i < g_nk; i++) {
        int r = do_fetch(db, i);
        sym_check(r == F_FOUND || r == F_ABSENT, "fetch after the fault gives the right bytes or key_not_found");
        got[i] = r == F_FOUND;
        if(comm[i])
            sym_check(got[i], "every item of the last successful commit is present");
        else if(pend[i]) {
            any |= got[i];
            all &= got[i];
        } else
            sym_check(!got[i], "no item appears whose insert did not succeed");
    }
    sym_check(any ? all : true, "a failed commit is kept as a whole or not at all");
    for(unsigned i = 0; i < nb + nn; i++)
        if(!got[i]) {
            error_code e = do_insert(db, i);
            sym_check(!e, "the database accepts inserts again");
            got[i] = true;
        }
    db.close(ec);
    sym_check(!ec, "close succeeds");
    check_format(got, g_nk, bs);
    sym_check(!vf_exists(LP), "no log remains");
    sym_check(vf_openfds() == 0, "every descriptor closed");
    sym_check(vf_misuse == 0, "no operation on a closed descriptor");
    sym_observe(vf_size(DP));
    sym_reach(any ? "kept" : "rolled back");
}
// nb committed items; then open, nn inserts with a flush after every `every`, a fetch after each insert, close - with
// the fault somewhere
static void faulty(store_t& db, nudb::context& ctx) {
    error_code ec;
    mark();
    db.open(DP, KP, LP, ec);
    if(ec) {
        sym_check(faulted() && injected(ec), "open fails only because of the fault, and says which");
        sym_check(!db.is_open(), "a failed open leaves the store closed");
        sym_reach("open failed");
        return;
    }
    sym_check(!faulted(), "a failure during open is reported");
    sym_check(db.is_open(), "open");
    bool stick = false;
    error_code st;
    for(unsigned i = nb; i < nb + nn; i++) {
        mark();
        error_code e = do_insert(db, i);
        if(stick)
            sym_check(e == st, "after a failed commit every insert returns that error");
        else if(e) {
            sym_check(faulted() && injected(e), "insert fails only because of the fault, and says which");
            sym_reach("insert failed");
        } else {
            sym_check(!faulted(), "a failure during insert is reported");
            pend[i] = true;
        }
        if(every && (i - nb + 1) % every == 0) {
            bool work = false;
            for(unsigned j = 0; j < g_nk; j++) work |= pend[j];
            mark();
            ctx.flush();
            if(!stick) {
                if(faulted()) {
                    uint8_t k[KMAX];
                    key_of(i, k);
                    unsigned calls = 0;
                    bool ok = true;
                    error_code fe;
                    mark();
                    db.fetch(k, FetchCb{&calls, g_val[i], g_vs[i], &ok}, fe);
                    sym_check(fe && !faulted() && injected(fe) && calls == 0,
                              "after a failed commit every fetch returns that error");
                    stick = true;
                    st = fe;
                    sym_reach("commit failed");
                } else if(work)
                    committed_now();
            }
        }
        unsigned q = i % (nb + nn);
        if(P("fetch", 1)) {
            mark();
            int r = do_fetch(db, q);
            bool has = comm[q] || pend[q];
            if(stick)
                sym_check(r == F_ERROR && g_lastec == st, "after a failed commit every fetch returns that error");
            else if(r == F_ERROR)
                sym_check(faulted() && injected(g_lastec), "fetch fails only because of the fault");
            else {
                sym_check(r == (has ? F_FOUND : F_ABSENT), "a fetch that succeeds is right");
                sym_check(!faulted(), "a failure during fetch is reported");
            }
            unsigned z = 0;
            mark();
            r = do_fetch(db, z);
            if(stick)
                sym_check(r == F_ERROR && g_lastec == st, "after a failed commit every fetch returns that error");
            else if(r == F_ERROR)
                sym_check(faulted() && injected(g_lastec), "fetch fails only because of the fault");
            else {
                sym_check(r == F_FOUND, "a fetch that succeeds is right");
                sym_check(!faulted(), "a failure during fetch is reported");
            }
        }
    }
    mark();
    error_code ce;
    db.close(ce);
    sym_check(!db.is_open(), "close always closes");
    if(stick)
        sym_check(ce == st, "close returns the error of the failed commit");
    else if(ce) {
        sym_check(faulted() && injected(ce), "close fails only because of the fault, and says which");
        sym_check(vf_exists(LP), "a failed close keeps the log");
        sym_reach("close failed");
    } else {
        sym_check(!faulted(), "a failure during close is reported");
        committed_now();
        sym_check(!vf_exists(LP), "a successful close removes the log");
        sym_reach("close ok");
    }
}
extern "C" void h_fault() {
    unsigned bs = setup();
    {
        nudb::context ctx;
        store_t db(ctx);
        arm(P("limit", 600));
        faulty(db, ctx);
        if(!vf_faults) {
            sym_reach("past the last operation");
            sym_kill();
        }
        disarm();
        if(P("same", 0) && !db.is_open()) {
            error_code ec;
            mark();
            db.open(DP, KP, LP, ec);
            sym_check(!ec && !faulted(), "the same object opens again after the failure");
            for(unsigned i = 0; i < g_nk; i++) {
                int r = do_fetch(db, i);
                sym_check(r == F_FOUND || (r == F_ABSENT && !comm[i]), "the same object works after reopening");
            }
            ctx.flush();
            sym_reach("same object");
            db.close(ec);
            sym_check(!ec, "and closes");
        }
    }
    sym_check(vf_openfds() == 0, "descriptors are closed when the store is gone");
    final_check(bs);
    sym_reach("fault");
}
// crash first, then the recovery done by open fails somewhere, then open again
static void victim() {
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    for(unsigned i = nb; i < nb + nn; i++) {
        error_code e = do_insert(db, i);
        sym_check(!e, "insert succeeds");
        pend[i] = true;
    }
    db.close(ec);
    sym_check(!ec, "close succeeds");
    committed_now();
}
extern "C" void h_fault_recover() {
    unsigned bs = setup();
    bool c = vf_run_crashing(victim, P("climit", 60));
    if(!c) sym_kill();
    vf_after_crash();
    vf_record = false;
    {
        arm(P("limit", 2000));
        error_code ec;
        mark();
        nudb::recover<SymHasher, nudb::posix_file>(DP, KP, LP, ec);
        if(!faulted()) {
            sym_reach("past the last operation");
            sym_kill();
        }
        disarm();
        sym_check((bool)ec && injected(ec), "a failure during recovery is reported");
        sym_check(vf_openfds() == 0, "descriptors closed");
        sym_reach("recovery failed");
    }
    final_check(bs);
    sym_reach("fault");
}

// an interrupted system call or a partial transfer is not a failure: nothing is reported, nothing is lost. C13
extern "C" void h_benign() {
    unsigned bs = setup();
    vf_benign_at = sym_below("benign_at", P("limit", 2000));
    vf_benign_rep = sym_choose("repeat", 2);
    vf_benign_on = true;
    {
        error_code ec;
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open succeeds");
        for(unsigned i = nb; i < nb + nn; i++) {
            sym_check(!do_insert(db, i), "insert succeeds");
            pend[i] = true;
            if(every && (i - nb + 1) % every == 0) ctx.flush();
            for(unsigned q = 0; q <= i; q++) sym_check(do_fetch(db, q) == F_FOUND, "fetch succeeds");
        }
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    committed_now();
    if(P("verify", 1)) {
        error_code ec;
        nudb::verify_info info;
        nudb::verify<SymHasher>(info, DP, KP, 1 << 20, [](std::uint64_t, std::uint64_t) {}, ec);
        sym_check(!ec, "verify succeeds");
    }
    if(!vf_benigns) {
        sym_reach("past the last operation");
        sym_kill();
    }
    vf_benign_on = false;
    final_check(bs);
    sym_reach("benign");
}
