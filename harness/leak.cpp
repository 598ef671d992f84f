// What is acquired is released: file handles and memory, on success and on every failure. C31
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static unsigned ni, bs;
static uint64_t h0;
static void arm() {
    vf_fault_at = sym_below("fault_at", P("limit", 600));
    vf_fault_mode = sym_choose("fault_mode", P("modes", 2));
    vf_fault_on = P("fault", 1);
}
static void released(const char* what) {
    vf_fault_on = false;
    sym_check(vf_openfds() == 0, "every file is closed");
    sym_check(vf_misuse == 0, "no file is used or closed after it was closed");
    sym_check(sym_heap() == h0, "all memory is released");
    if(P("fault", 1) && !vf_faults) {
        sym_reach("past the last operation");
        sym_kill();
    }
    sym_observe(vf_size(DP));
    sym_observe(vf_size(KP));
    sym_reach(what);
}
static void begin() {
    ni = P("ni", 3);
    bs = P("bs", 104);
    setup_keys(ni, P("hmode", 3), P("hb", 2), P("salted", 0));
    h0 = sym_heap();
}
static void history(unsigned n) {
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    for(unsigned i = 0; i < n; i++) do_insert(db, i);
    ec = {};
    db.close(ec);
}
// open, insert, fetch, flush, close in different orders, then the store is destroyed
extern "C" void h_leak_store() {
    begin();
    create_db(bs, 0.5f);
    history(1);
    arm();
    {
        nudb::context ctx;
        store_t db(ctx);
        for(unsigned round = 0; round < P("rounds", 2); round++) {
            error_code ec;
            db.open(DP, KP, LP, ec);
            if(ec) {
                sym_check(!db.is_open(), "a failed open leaves the store closed");
                continue;
            }
            for(unsigned i = 1; i < ni; i++) {
                do_insert(db, i);
                do_fetch(db, i);
                do_fetch(db, 0);
                if(sym_choose("flush", 2)) ctx.flush();
            }
            if(sym_choose("close", 2)) {
                error_code e;
                db.close(e);
                if(!e) sym_check(vf_openfds() == 0, "close releases every file");
            } else
                break;
        }
        if(db.is_open()) sym_reach("destroyed while open");
    }
    released("store");
}
// the tools
extern "C" void h_leak_tools() {
    begin();
    unsigned tool = (unsigned)sym_choose("tool", 6);
    error_code ec;
    if(tool) {
        create_db(bs, 0.5f);
        history(ni);
    }
    if(tool == 4) nudb::posix_file::erase(KP, ec), ec = {};
    arm();
    auto none = [](std::uint64_t, std::uint64_t) {};
    switch(tool) {
    case 0: nudb::create<SymHasher, nudb::posix_file>(DP, KP, LP, 7, 42, g_salt0, g_ks, bs, 0.5f, ec); break;
    case 1:
    case 2: {
        nudb::verify_info vi;
        nudb::verify<SymHasher>(vi, DP, KP, tool == 1 ? 0 : 1 << 20, none, ec);
        break;
    }
    case 3: {
        unsigned stop = (unsigned)sym_choose("stop", 2);
        nudb::visit(
            DP,
            [&](void const*, std::size_t, void const*, std::size_t, error_code& e) {
                if(stop) e = make_error_code(boost::system::errc::operation_canceled);
            },
            none, ec);
        break;
    }
    case 4: nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, bs, 0.5f, ni, P("buffer", 1000), ec, none); break;
    default: nudb::recover<SymHasher, nudb::posix_file>(DP, KP, LP, ec);
    }
    static const char* names[] = {"create", "verify slow", "verify fast", "visit", "rekey", "recover"};
    released(names[tool]);
}
static void victim() {
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    for(unsigned i = 1; i < ni; i++) do_insert(db, i);
    db.close(ec);
}
static void rekey_victim() {
    error_code ec;
    nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, bs, 0.5f, ni, 1000, ec, [](std::uint64_t, std::uint64_t) {});
}
// recovery of an interrupted commit or rekey, itself failing somewhere
extern "C" void h_leak_recover() {
    begin();
    create_db(bs, 0.5f);
    history(1);
    bool rk = sym_choose("rekey", 2);
    error_code ec;
    if(rk) nudb::posix_file::erase(KP, ec);
    if(!vf_run_crashing(rk ? rekey_victim : victim, P("climit", 60))) sym_kill();
    vf_after_crash();
    vf_record = false;
    h0 = sym_heap(); // what the dead process held does not count
    arm();
    ec = {};
    if(sym_choose("by_open", 2)) {
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_reach("by open");
    } else
        nudb::recover<SymHasher, nudb::posix_file>(DP, KP, LP, ec);
    released(rk ? "recover rekey" : "recover commit");
}
// the memory held after a commit does not grow with the number of commits
extern "C" void h_leak_growth() {
    begin();
    create_db(bs, 0.5f);
    unsigned rounds = P("rounds", 4), warm = P("warm", 2);
    {
        nudb::context ctx;
        store_t db(ctx);
        error_code ec;
        db.open(DP, KP, LP, ec);
        uint64_t most = 0;
        for(unsigned i = 0; i < rounds; i++) {
            sym_check(!do_insert(db, i), "insert succeeds");
            ctx.flush();
            uint64_t h = sym_heap();
            if(i < warm)
                most = h > most ? h : most;
            else
                sym_check(h <= most, "the memory held after a commit does not grow with the number of commits");
            sym_observe(h - h0);
        }
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    released("growth");
}
// service thread and store with it
extern "C" void h_leak_context() {
    begin();
    create_db(bs, 0.5f);
    unsigned how = (unsigned)sym_choose("how", 3);
    thr_budget = (int)P("budget", 1);
    thr_timers = 1;
    arm();
    {
        nudb::context ctx;
        store_t db(ctx);
        error_code ec;
        if(how) ctx.start();
        db.open(DP, KP, LP, ec);
        thr_on = true;
        bool open = !ec;
        for(unsigned i = 0; open && i < ni; i++) do_insert(db, i);
        if(how == 2) ctx.stop_all();
        if(open && sym_choose("close", 2)) db.close(ec);
        if(how == 1 && sym_choose("stop", 2)) ctx.stop_all();
    }
    thr_on = false;
    released(how == 0 ? "no thread" : how == 1 ? "thread" : "stopped early");
}
