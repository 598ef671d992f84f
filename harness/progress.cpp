// Progress reports of verify, visit and rekey: C30.
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static unsigned ni, bs;
static uint64_t n_calls, last, total;
struct Prog {
    void operator()(std::uint64_t amount, std::uint64_t work) const {
        if(!n_calls) {
            sym_check(amount == 0, "the first report says that nothing is done yet");
            total = work;
        }
        sym_check(work == total, "the total amount of work stays the same");
        sym_check(amount <= work, "no more work is done than the total");
        sym_check(amount >= last, "progress never goes back");
        last = amount;
        n_calls++;
    }
};
static void setup() {
    ni = P("ni", 3);
    bs = P("bs", 104);
    setup_keys(ni, P("hmode", 0), P("hb", 2), P("salted", 0));
    static const float lfs[] = {0.9f, 0.2f, 0.01f, 0.5f};
    create_db(bs, lfs[sym_choose("load_factor", P("nlfs", 4))]);
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    bool reopen = P("reopen", 1);
    for(unsigned i = 0; i < ni; i++) {
        sym_check(!do_insert(db, i), "insert succeeds");
        unsigned w = P("flush", 1) ? (unsigned)sym_choose("then", 2 + reopen) : 0;
        if(w == 1) ctx.flush();
        if(w == 2) {
            db.close(ec);
            db.open(DP, KP, LP, ec);
            sym_check(!ec, "reopen succeeds");
        }
    }
    db.close(ec);
    sym_check(!ec, "close succeeds");
}
extern "C" void h_prog_verify() {
    setup();
    if(unsigned n = P("items", 0)) { // many buckets
        error_code ec;
        nudb::posix_file::erase(KP, ec);
        nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, bs, 0.9f, n, 100000, ec, nudb::no_progress{});
        sym_check(!ec, "rekey succeeds");
    }
    unsigned c = (unsigned)sym_choose("buffer", 4);
    size_t b = c == 0 ? 0 : c == 1 ? 1000000 : c == 2 ? 2 * bs + 8 : 3 * bs + 16;
    error_code ec;
    nudb::verify_info vi;
    nudb::verify<SymHasher>(vi, DP, KP, b, Prog{}, ec);
    sym_check(!ec, "verify succeeds");
    sym_check(n_calls > 0, "progress is reported");
    sym_observe(last);
    sym_reach(vi.algorithm ? "fast" : "normal");
}
extern "C" void h_prog_visit() {
    setup();
    error_code ec;
    unsigned seen = 0;
    nudb::visit(DP, [&](void const*, std::size_t, void const*, std::size_t, error_code&) { seen++; }, Prog{}, ec);
    sym_check(!ec && seen == ni, "visit succeeds");
    sym_check(n_calls > 0, "progress is reported");
    sym_observe(last);
    sym_reach("visit");
}
extern "C" void h_prog_rekey() {
    setup();
    error_code ec;
    nudb::posix_file::erase(KP, ec);
    static const unsigned bss[] = {104, 300};
    static const float lfs[] = {0.9f, 0.1f};
    unsigned nbs = bss[sym_choose("new_block_size", 2)];
    float lf = lfs[sym_choose("new_load_factor", 2)];
    unsigned c = (unsigned)sym_choose("buffer", 3), items = 1 + (unsigned)sym_choose("items", 2) * 6;
    size_t b = c == 0 ? 1 : c == 1 ? 2 * nbs : 100000;
    nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, nbs, lf, items, b, ec, Prog{});
    sym_check(!ec, "rekey succeeds");
    sym_check(n_calls > 0, "progress is reported");
    sym_observe(last);
    sym_reach("rekey");
}
