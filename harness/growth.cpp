// Growth of the table: C10. While a database stays open, one bucket is added each time the load passes the configured
// load factor.
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
extern "C" void h_growth() {
    static const unsigned bss[4] = {104, 122, 140, 200};
    unsigned nk = P("nk", 10), every = P("every", 0), bs = bss[sym_choose("block_size", P("nbs", 2))],
             cap = (bs - 8) / 18;
    setup_keys(nk, P("hmode", 2), P("hb", 1));
    create_db(bs, 0.5f);
    uint64_t lf = sym_bits("load_factor", 16); // any load factor the header can hold
    sym_assume(lf >= 1);
    uint8_t* k = vf_data(KP);
    k[46] = (uint8_t)(lf >> 8);
    k[47] = (uint8_t)lf;
    nudb::context ctx;
    store_t db(ctx);
    error_code ec;
    db.open(DP, KP, LP, ec);
    sym_check(!ec, "open");
    uint64_t t = lf * cap; // load per bucket, in 1/65536 items
    if(t < 65536) t = 65536;
    bool present[NK_MAX];
    for(unsigned i = 0; i < nk; i++) present[i] = false;
    for(unsigned i = 0; i < nk; i++) {
        sym_check(!do_insert(db, i), "insert");
        present[i] = true;
        if(every ? (i + 1) % every != 0 : i + 1 < nk && !sym_choose("flush", 2)) continue;
        ctx.flush();
        uint64_t n = i + 1, b = sym_concretize(vf_size(KP)) / bs - 1;
        sym_check(n * 65536 <= b * t, "average occupancy stays within the load factor");
        sym_check((b - 1) * t <= n * 65536 + t / 2, "no bucket is added before the load calls for it");
        if(b > 1) sym_reach("split");
    }
    db.close(ec);
    sym_check(!ec, "close");
    check_format(present, nk, bs);
    sym_observe(vf_size(KP));
    sym_reach("growth");
}
