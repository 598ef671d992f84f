// Several threads on one database: C20, C23.
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static store_t* db;
static nudb::context* cx;
static bool present[NK_MAX];
static bool expect_ins[NK_MAX];
enum { NONE, BUSY, DONE };
static int ins[NK_MAX];
static unsigned winners[NK_MAX]; // progress of the concurrent inserts
// fetch while others work: what was inserted before must be found, what nobody inserts is absent, what is being
// inserted may be either
static void fetch_any(unsigned id) {
    int before = ins[id];
    int r = do_fetch(*db, id);
    int after = ins[id];
    sym_check(r == F_FOUND || r == F_ABSENT, "a fetch returns the exact value or nothing");
    if(present[id] || before == DONE)
        sym_check(r == F_FOUND, "a key inserted earlier is found while other threads work");
    else if(after == NONE)
        sym_check(r == F_ABSENT, "a key not inserted is not found");
    sym_reach(r == F_FOUND ? "found" : "absent");
}
static void insert_one(unsigned id) {
    bool pre = present[id];
    if(ins[id] == NONE) ins[id] = BUSY;
    int was = ins[id];
    error_code ec = do_insert(*db, id);
    if(!ec) {
        sym_check(!pre && was != DONE && winners[id] == 0, "only one insert of a key succeeds");
        winners[id]++;
    } else {
        sym_check(ec == nudb::error::key_exists, "an insert fails only because the key exists");
        sym_check(pre || was == BUSY || was == DONE, "a key that nobody inserts is accepted");
        sym_reach("loser");
    }
    ins[id] = DONE;
    sym_check(do_fetch(*db, id) == F_FOUND, "a thread finds what it inserted");
}
struct Job {
    char kind;
    unsigned a, b;
};
static Job jobs[4];
static void work(void* p) {
    Job* j = (Job*)p;
    switch(j->kind) {
    case 'f':
        fetch_any(j->a);
        if(j->b < g_nk) fetch_any(j->b);
        break;
    case 'i':
        insert_one(j->a);
        if(j->b < g_nk) insert_one(j->b);
        break;
    case 'F':
        cx->flush();
        if(j->b == 1) cx->flush();
        break;
    case 'a':
        sym_check(db->appnum() == 7 && db->key_size() == g_ks && db->block_size() == P("bs", 104) && db->is_open(),
                  "accessors");
        (void)db->dat_path();
        db->set_burst(1 << 20);
        break;
    }
}
static void prepare(unsigned np, unsigned committed, unsigned nk) {
    setup_keys(nk, P("hmode", 2), P("hb", 1));
    create_db(P("bs", 104), P("lf", 50) / 100.0f);
    cx = new nudb::context;
    db = new store_t(*cx);
    error_code ec;
    db->open(DP, KP, LP, ec);
    sym_check(!ec, "open");
    for(unsigned i = 0; i < np; i++) {
        error_code e = do_insert(*db, i);
        sym_check(!e, "insert");
        present[i] = true;
        if(i + 1 == committed) cx->flush();
    }
}
static void run_all(unsigned n) {
    int t[4];
    for(unsigned i = 0; i < n; i++) t[i] = thr_start(work, &jobs[i]);
    thr_budget = P("budget", 2);
    hb_enable(P("hb_on", 0));
    thr_on = true;
    for(unsigned i = 0; i < n; i++) thr_join(t[i]);
    thr_on = false;
    hb_enable(0);
}
static void finish() {
    for(unsigned i = 0; i < g_nk; i++)
        if(ins[i] == DONE) {
            sym_check(present[i] || winners[i] == 1, "one of the inserts won");
            present[i] = true;
        }
    for(unsigned i = 0; i < g_nk; i++) {
        int r = do_fetch(*db, i);
        sym_check(r == (present[i] ? F_FOUND : F_ABSENT), "afterwards every key is there, and no other");
    }
    error_code ec;
    db->close(ec);
    sym_check(!ec, "close");
    check_format(present, g_nk, P("bs", 104));
    db->open(DP, KP, LP, ec);
    sym_check(!ec, "reopen");
    for(unsigned i = 0; i < g_nk; i++) {
        int r = do_fetch(*db, i);
        sym_check(r == (present[i] ? F_FOUND : F_ABSENT), "after reopening as well");
    }
    db->close(ec);
    sym_check(!ec, "close");
    delete db;
    delete cx;
    sym_check(vf_openfds() == 0 && vf_misuse == 0, "descriptors");
    sym_observe(thr_switches);
    sym_reach("done");
}
// fetches and a commit
extern "C" void h_fetch_flush() {
    unsigned np = P("np", 6), c = P("committed", 5);
    prepare(np, c, np + 1);
    unsigned w = (unsigned)sym_choose("target", 3);
    unsigned id = w == 0 ? 0 : w == 1 ? np - 1 : np;
    jobs[0] = {'f', id, g_nk};
    jobs[1] = {'F', 0, 0};
    run_all(2);
    finish();
}
// two fetches from one reader during a commit
extern "C" void h_fetch2_flush() {
    unsigned np = P("np", 6), c = P("committed", 5);
    prepare(np, c, np + 1);
    jobs[0] = {'f', 0, np - 1};
    jobs[1] = {'f', P("second", 1), g_nk};
    jobs[2] = {'F', 0, 0};
    run_all(3);
    finish();
}
// an insert, a fetch of the same key and a commit
extern "C" void h_insert_fetch_flush() {
    unsigned np = P("np", 2), c = P("committed", 1);
    prepare(np, c, np + 2);
    jobs[0] = {'i', np, g_nk};
    jobs[1] = {'f', sym_choose("target", 2) ? np : 0, g_nk};
    jobs[2] = {'F', P("twice", 0), P("twice", 0)};
    run_all(3);
    finish();
}
// two inserts of the same or of different keys, with a commit
extern "C" void h_insert_insert() {
    unsigned np = P("np", 2), c = P("committed", 1);
    prepare(np, c, np + 2);
    unsigned k = (unsigned)sym_choose("same", 3);
    jobs[0] = {'i', np, g_nk};
    jobs[1] = {'i', k == 0 ? np : k == 1 ? np + 1 : 0, g_nk};
    unsigned n = 2;
    if(P("flush", 1)) {
        jobs[2] = {'F', 0, 0};
        n = 3;
    }
    run_all(n);
    finish();
}
// two commits in a row by a flusher while a reader holds its place
extern "C" void h_two_flushes() {
    unsigned np = P("np", 3), c = P("committed", 1);
    prepare(np, c, np + 2);
    jobs[0] = {'f', 0, np - 1};
    jobs[1] = {'i', np, g_nk};
    jobs[2] = {'F', 0, 1};
    run_all(3);
    finish();
}
// accessors beside inserts and commits
extern "C" void h_access() {
    unsigned np = P("np", 2), c = P("committed", 1);
    prepare(np, c, np + 2);
    jobs[0] = {'a', 0, 0};
    jobs[1] = {'i', np, g_nk};
    jobs[2] = {'F', 0, 0};
    run_all(3);
    finish();
}
// Items arriving during a commit while time passes: the allocator of the buffer adapts and several items share its
// blocks. C26
static int64_t g_now = 1000000000;
static int64_t jumping() { return g_now; }
extern "C" void h_buffered() {
    static const int64_t jump[3] = {0, 500000000, 600000000000};
    env_clock_fn = jumping;
    prepare(1, 0, 8);
    g_now += jump[sym_choose("elapsed", 3)];
    jobs[0] = {'i', 1, 2};
    jobs[1] = {'F', 0, 0};
    run_all(2);
    for(unsigned i = 3; i < 8; i++) {
        error_code e = do_insert(*db, i);
        sym_check(!e, "insert");
        ins[i] = DONE;
        winners[i] = 1;
        for(unsigned j = 0; j <= i; j++)
            sym_check(do_fetch(*db, j) == F_FOUND, "every buffered item keeps its exact bytes");
        if(i == 6 && sym_choose("flush", 2)) cx->flush();
    }
    sym_reach("buffered");
    finish();
}
// The library's own service thread: commits without being asked, never touches a closed database, stops. C22, C20, C23.
static uint64_t want_size;
static bool grown(void*) { return vf_size(DP) > want_size; }
static int log_owner = -1;
static void one_committer(int kind, int ino, uint64_t off, uint64_t) {
    if(strcmp(vf[ino].name, "l")) return;
    if(kind == K_PWRITE) {
        sym_check(log_owner == -1 || log_owner == thr_cur, "one commit at a time");
        log_owner = thr_cur;
    } else if(kind == K_TRUNC && off == 0)
        log_owner = -1;
    else if(kind == K_UNLINK)
        log_owner = -1;
}
extern "C" void h_service() {
    setup_keys(3, P("hmode", 2), 1);
    create_db(104, P("lf", 20) / 100.0f);
    thr_timers = P("timers", 1);
    db = new store_t;
    error_code ec;
    db->open(DP, KP, LP, ec);
    sym_check(!ec, "open");
    want_size = vf_size(DP);
    sym_check(!do_insert(*db, 0), "insert");
    present[0] = true;
    vf_hook = one_committer;
    hb_enable(P("hb_on", 0));
    thr_on = true;
    thr_budget = P("budget", 2);
    unsigned w = (unsigned)sym_choose("what", 3);
    if(w == 0) {
        sched_block(grown, nullptr, "deadlock: the service thread never commits");
        sym_reach("committed by itself");
    } else if(w == 1) {
        sym_check(!do_insert(*db, 1), "insert");
        present[1] = true;
    }
    sym_check(do_fetch(*db, 0) == F_FOUND, "found while the service thread works");
    db->close(ec);
    sym_check(!ec, "close");
    sym_check(!vf_exists(LP), "log removed");
    delete db;
    thr_on = false;
    hb_enable(0);
    vf_hook = nullptr;
    check_format(present, 3, 104);
    cx = new nudb::context;
    db = new store_t(*cx);
    db->open(DP, KP, LP, ec);
    sym_check(!ec, "reopen");
    finish();
    sym_reach("service");
}
static void service(void*) { cx->run(); }
extern "C" void h_service2() {
    setup_keys(3, P("hmode", 2), 1);
    create_db(104, P("lf", 20) / 100.0f);
    error_code ec;
    nudb::create<SymHasher, nudb::posix_file>("d2", "k2", "l2", 7, 43, g_salt0, g_ks, 104, 0.5f, ec);
    sym_check(!ec, "create");
    cx = new nudb::context;
    db = new store_t(*cx);
    store_t* d2 = new store_t(*cx);
    db->open(DP, KP, LP, ec);
    sym_check(!ec, "open");
    d2->open("d2", "k2", "l2", ec);
    sym_check(!ec, "open");
    want_size = vf_size(DP);
    sym_check(!do_insert(*db, 0) && !do_insert(*d2, 1), "insert");
    present[0] = true;
    unsigned nt = P("threads", 1);
    thr_timers = P("timers", 1);
    int t[2];
    for(unsigned i = 0; i < nt; i++) t[i] = thr_start(service, nullptr);
    vf_hook = one_committer;
    hb_enable(P("hb_on", 0));
    thr_on = true;
    thr_budget = P("budget", 2);
    bool first = sym_choose("close_first", 2);
    if(first) {
        d2->close(ec);
        sym_check(!ec, "close");
        delete d2;
        d2 = nullptr;
    }
    sched_block(grown, nullptr, "deadlock: an open database is never committed");
    sym_reach("committed");
    if(!first) {
        sym_check(do_fetch(*d2, 1) == F_FOUND, "the other database works");
        d2->close(ec);
        sym_check(!ec, "close");
        delete d2;
    }
    sym_check(do_fetch(*db, 0) == F_FOUND, "found");
    db->close(ec);
    sym_check(!ec, "close");
    for(unsigned i = 0; i < nt; i++)
        sched_block([](void* p) { return ((SThr*)p)->waited; }, &thr[t[i]],
                    "deadlock: a worker never waits"); /* stop_all before a worker has entered run() does not stop that
                                                          worker */
    cx->stop_all();
    for(unsigned i = 0; i < nt; i++) thr_join(t[i]);
    thr_on = false;
    hb_enable(0);
    vf_hook = nullptr;
    db->open(DP, KP, LP, ec);
    sym_check(!ec, "reopen");
    finish();
    sym_reach("service2");
}

// An insert and a fetch beside a commit while a file operation fails: in the client (who=1), in the committing thread
// (who=2) or anywhere (who=0).
static bool maybe_ins[NK_MAX];
static bool injected(const error_code& e) {
    int v = e.value();
    return e.category() == boost::system::system_category() && (v == EIO || v == ENOSPC || v == EACCES);
}
static void client(void* p) {
    Job* j = (Job*)p;
    error_code e = do_insert(*db, j->a);
    if(!e) {
        sym_check(!present[j->a], "a stored key is not accepted again");
        ins[j->a] = DONE;
    } else if(e == nudb::error::key_exists)
        sym_check(present[j->a], "a new key is not refused as a duplicate");
    else {
        sym_check(vf_faults && injected(e), "insert fails only because of the fault, and says which");
        maybe_ins[j->a] = true;
        sym_reach("insert failed");
    }
    int r = do_fetch(*db, j->b);
    sym_check(r != F_WRONG, "a fetch never delivers wrong bytes");
    if(r == F_ERROR) {
        sym_check(vf_faults, "fetch fails only because of the fault");
        sym_reach("fetch failed");
    } else if(r == F_ABSENT)
        sym_check(!present[j->b] && ins[j->b] != DONE, "a failure never hides a key");
    else
        sym_check(present[j->b] || ins[j->b] == DONE || maybe_ins[j->b], "no key appears from nowhere");
}
extern "C" void h_fault_flush() {
    unsigned np = P("np", 6), c = P("committed", 5), who = P("who", 1);
    prepare(np, c, np + 1);
    unsigned w = (unsigned)sym_choose("target", 3);
    unsigned id = w == 0 ? 0 : w == 1 ? c - 1 : np;
    jobs[0] = {'x', id, (unsigned)(sym_choose("other", 2) ? 1 : id)};
    jobs[1] = {'F', 0, 0};
    int t0 = thr_start(client, &jobs[0]), t1 = thr_start(work, &jobs[1]);
    vf_fault_thr = who == 1 ? t0 : who == 2 ? t1 : -1;
    vf_fault_at = sym_below("fault_at", P("limit", 40));
    vf_fault_mode = sym_choose("fault_mode", 2);
    vf_fault_on = true;
    thr_budget = P("budget", 1);
    thr_on = true;
    thr_join(t0);
    thr_join(t1);
    thr_on = false;
    vf_fault_on = false;
    if(!vf_faults) sym_reach("past the last operation");
    error_code ec;
    db->close(ec);
    bool failed = !!ec;
    if(who == 1) sym_check(!failed, "a failing insert or fetch does not spoil the commit");
    if(failed) {
        sym_check(vf_faults && injected(ec), "close fails only because of the fault, and says which");
        sym_reach("commit failed");
    }
    delete db;
    delete cx;
    nudb::context ctx;
    store_t s(ctx);
    ec = {};
    s.open(DP, KP, LP, ec);
    sym_check(!ec, "the database opens once the fault is gone");
    bool got[NK_MAX];
    for(unsigned i = 0; i < g_nk; i++) {
        int r = do_fetch(s, i);
        sym_check(r == F_FOUND || r == F_ABSENT, "fetch after the fault gives the right bytes or key_not_found");
        got[i] = r == F_FOUND;
        if(i < c || (!failed && (present[i] || ins[i] == DONE)))
            sym_check(got[i], "every item of the last successful commit is present");
        if(!present[i] && ins[i] != DONE && !maybe_ins[i]) sym_check(!got[i], "no key appears from nowhere");
    }
    s.close(ec);
    sym_check(!ec, "close succeeds");
    check_format(got, g_nk, P("bs", 104));
    sym_check(vf_openfds() == 0 && vf_misuse == 0, "descriptors");
    sym_reach("fault");
}
