// Throttling of insert: C28. The clock is under control of the harness; sleeps are counted.
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static int64_t g_now = 1000000000000;
static int64_t my_clock() { return g_now; }
static uint64_t written; // bytes written by a commit: the harness's measure of its work
static int64_t g_dt;
static bool g_jump;
static void hook(int kind, int, uint64_t, uint64_t n) {
    if(kind == K_PWRITE) written += n;
    if(kind == K_FSYNC && g_jump) {
        g_jump = false;
        g_now += g_dt;
    } // the commit takes g_dt
}
// clock steps in nanoseconds: standing still, tiny, ordinary, long, and backwards
static const int64_t STEP[7] = {0, 1, 1000, 20000000, 400000000, -1, -400000000};
static int64_t pick(const char* n, unsigned kind, bool back) {
    if(kind == 0) return STEP[sym_choose(n, back ? 7 : 5)];
    int64_t v = (int64_t)sym_bits(n, P("bits", 8))
                << (sym_choose("scale", 2) ? 20 : 0); // any value up to 255 ns or, in milliseconds, 0.27 s
    if(back) v -= 2 << 20;
    return v;
}
static nudb::context* cx;
static store_t* db;
// while an insert is held back another thread reads
static void reader() { sym_check(do_fetch(*db, 0) == F_FOUND, "readers are not held back"); }
static uint64_t W; // work buffered since the last commit: value bytes and three blocks per item
static unsigned put(unsigned id) {
    unsigned s = env_sleeps;
    error_code ec = do_insert(*db, id);
    sym_check(!ec, "insert succeeds");
    W += g_vs[id] + 3 * 104;
    return env_sleeps - s;
}
extern "C" void h_throttle() {
    unsigned nk = P("nk", 5), nf = P("nf", 2), sel = P("sel", 0);
    setup_keys(nk, P("hmode", 2), 1);
    create_db(104, 0.5f);
    env_clock_fn = my_clock;
    env_on_sleep = reader;
    vf_hook = hook;
    cx = new nudb::context;
    db = new store_t(*cx);
    error_code ec;
    db->open(DP, KP, LP, ec);
    sym_check(!ec, "open");
    uint64_t B = sym_bits("burst", 32);
    db->set_burst(B);
    // nothing has been committed: no rate is known
    g_now += pick("before", 0, true);
    for(unsigned i = 0; i < nf; i++) sym_check(put(i) == 0, "nothing is held back before a flush rate is known");
    written = 0;
    g_dt = pick("flush_time", sel & 1, false);
    g_jump = true;
    cx->flush();
    sym_check(!g_jump, "harness: a commit syncs");
    uint64_t Fw = written, d1 = g_dt > 0 ? (uint64_t)g_dt : 1;
    W = 0;
    uint64_t Bf = B; // the burst size when the rate was measured
    if(P("burst2", 0)) {
        B = sym_bits("burst", 32);
        db->set_burst(B);
    }
    // a commit whose start the clock shows as now or later counts as one tick
    int64_t start = g_now - g_dt;
    for(unsigned i = nf; i < nk; i++) {
        int64_t e = pick("elapsed", sel >> 1 & 1, true);
        g_now = start + e;
        uint64_t d2 = e > 0 ? (uint64_t)e : 1;
        unsigned s = put(i);
        sym_check(s <= 1, "one delay at most");
        bool over = W > B;
        // rate of insertion W/d2 against flush rate, the latter known up to a factor of four
        bool slow = W * d1 * 4 <= Fw * d2, fast = (W * d1 > 4 * Fw * d2) & (W * 1000000000ull > 4 * d2);
        if(s) {
            sym_check(over, "an insert is held back only when more than the burst is buffered");
            sym_check(!slow, "an insert is held back only when items arrive faster than they can be flushed");
            sym_check(Fw * 4 > Bf, "an insert is held back only when the flush rate was measured on more than a burst");
            sym_reach("held back");
        } else {
            sym_check(!(over & fast & (Fw > 4 * Bf)),
                      "an insert is held back when a burst is buffered faster than it can be flushed");
            sym_reach("not held back");
        }
    }
    for(unsigned i = 0; i < nk; i++) sym_check(do_fetch(*db, i) == F_FOUND, "every item is there");
    db->close(ec);
    sym_check(!ec, "close");
    delete db;
    delete cx;
    sym_observe(env_sleeps);
    sym_reach("throttle");
}
