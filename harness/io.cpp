// What fetch, insert and commit cost in file operations (C32), and that they do not wait for a commit (C33).
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static unsigned bs, ino_k, ino_d;
static bool on;
static unsigned rk, rd, changes;
static uint64_t bytes;
static bool commit_on;
static uint8_t kread[512], kwritten[512];
static void count(int kind, int ino, uint64_t off, uint64_t n) {
    if(commit_on && ino == (int)ino_k && (kind == K_PREAD || kind == K_PWRITE)) {
        for(uint64_t b = off / bs; b < 512 && b * bs < off + n; b++) {
            uint8_t& c = kind == K_PREAD ? kread[b] : kwritten[b];
            sym_check(++c <= 1, kind == K_PREAD ? "a commit reads each bucket of the key file once"
                                                : "a commit writes each bucket of the key file once");
        }
    }
    if(!on) return;
    if(kind == K_PREAD) {
        (ino == (int)ino_k ? rk : rd)++;
        bytes += n;
    } else
        changes++;
}
static void begin() {
    rk = rd = changes = 0;
    bytes = 0;
    on = true;
}
static void memory_only(const char* what) {
    on = false;
    sym_check(rk + rd + changes == 0, what);
}
// what a look for key id may cost, from the files
static void bounded(unsigned id, const char* what) {
    on = false;
    const uint8_t *d = vf_data(DP), *k = vf_data(KP);
    uint64_t buckets = vf_size(KP) / bs - 1, h = hash48(id);
    unsigned chain = 0, same = 0;
    uint64_t max = bs;
    const uint8_t* q = k + (sym_concretize(ref_index(h, buckets)) + 1) * bs;
    for(;;) {
        unsigned cnt = (unsigned)sym_concretize(be_at(q, 2));
        bool found = false;
        for(unsigned e = 0; e < cnt; e++)
            if(be_at(q + 20 + 18 * e, 6) == h) {
                uint64_t o = sym_concretize(be_at(q + 8 + 18 * e, 6));
                unsigned i = id_of(d + o + 6);
                sym_check(i < g_nk, "harness: entry of a known item");
                same++;
                max += 6 + g_ks + g_vs[i];
                if(i == id) found = true;
            }
        uint64_t sp = sym_concretize(be_at(q + 2, 6));
        if(found || !sp) break;
        chain++;
        max += bs;
        q = d + sp;
    }
    sym_check(rk <= 1, "the bucket is read from the key file at most once");
    sym_check(rd <= chain + same, "one read for each spill record and for each entry with the same hash");
    sym_check(bytes <= max, "no more bytes are read than these records have");
    sym_check(changes == 0, what);
    if(chain && same) sym_reach("chain");
    if(same > 1) sym_reach("collision");
}
extern "C" void h_io_cost() {
    unsigned ni = P("ni", 6), every = P("every", 0);
    bs = P("bs", 104);
    setup_keys(ni + 1, P("hmode", 0), P("hb", 2));
    create_db(bs, P("lf", 90) / 100.0f);
    ino_k = (unsigned)vf_find(KP);
    ino_d = (unsigned)vf_find(DP);
    vf_hook = count;
    {
        nudb::context ctx;
        store_t db(ctx);
        error_code ec;
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open");
        unsigned stored = 0;
        for(unsigned i = 0; i < ni; i++) {
            begin();
            sym_check(!do_insert(db, i), "insert succeeds");
            bounded(i, "an insert changes no file");
            begin();
            sym_check(do_fetch(db, i) == F_FOUND, "found");
            memory_only("an item that waits in memory is fetched without any file operation");
            begin();
            sym_check(do_insert(db, i) == nudb::error::key_exists, "refused");
            memory_only("an item that waits in memory is refused without any file operation");
            if(every ? (i + 1) % every == 0 : sym_choose("flush", 2)) {
                memset(kread, 0, sizeof kread);
                memset(kwritten, 0, sizeof kwritten);
                commit_on = true;
                ctx.flush();
                commit_on = false;
                stored = i + 1;
                sym_reach("commit");
            }
        }
        for(unsigned i = 0; i < stored; i++) {
            begin();
            sym_check(do_fetch(db, i) == F_FOUND, "found");
            bounded(i, "a fetch changes no file");
            begin();
            sym_check(do_insert(db, i) == nudb::error::key_exists, "refused");
            bounded(i, "a refused insert changes no file");
        }
        begin();
        sym_check(do_fetch(db, ni) == F_ABSENT, "absent");
        bounded(ni, "a fetch changes no file");
        sym_observe(rd);
        db.close(ec);
        sym_check(!ec, "close");
    }
    sym_observe(vf_size(DP));
    sym_reach("cost");
}
// While a commit is inside the n-th of its file operations, other threads fetch and insert. A lock that the commit held
// there would never be granted.
static store_t* g_db;
static uint64_t at;
static unsigned ops, nb, nn;
static bool inside, done;
static void meanwhile(int, int, uint64_t, uint64_t) {
    if(inside || ops++ != at) return;
    inside = true;
    for(unsigned i = 0; i < nb + nn; i++)
        sym_check(do_fetch(*g_db, i) == F_FOUND, "a fetch during the commit finds every item");
    sym_check(do_fetch(*g_db, nb + nn) == F_ABSENT, "a fetch during the commit finds nothing that is not there");
    sym_check(do_insert(*g_db, 0) == nudb::error::key_exists, "a stored key is refused during the commit");
    sym_check(do_insert(*g_db, nb) == nudb::error::key_exists, "a key being committed is refused");
    sym_check(!do_insert(*g_db, nb + nn), "a new key is accepted during the commit");
    sym_check(do_fetch(*g_db, nb + nn) == F_FOUND, "and found at once");
    inside = false;
    done = true;
}
extern "C" void h_io_nonblock() {
    bs = P("bs", 104);
    nb = P("nb", 2);
    nn = P("nn", 2);
    setup_keys(nb + nn + 1, P("hmode", 0), P("hb", 2));
    create_db(bs, P("lf", 90) / 100.0f);
    {
        nudb::context ctx;
        store_t db(ctx);
        g_db = &db;
        error_code ec;
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open");
        for(unsigned i = 0; i < nb; i++) sym_check(!do_insert(db, i), "insert succeeds");
        ctx.flush();
        for(unsigned i = nb; i < nb + nn; i++) sym_check(!do_insert(db, i), "insert succeeds");
        at = sym_below("at", P("limit", 200));
        vf_hook = meanwhile;
        ctx.flush();
        vf_hook = nullptr;
        if(!done) {
            sym_reach("past the last operation");
            sym_kill();
        }
        for(unsigned i = 0; i <= nb + nn; i++) sym_check(do_fetch(db, i) == F_FOUND, "every item is there afterwards");
        db.close(ec);
        sym_check(!ec, "close");
    }
    bool all[NK_MAX];
    for(unsigned i = 0; i < NK_MAX; i++) all[i] = i <= nb + nn;
    check_format(all, g_nk, bs);
    sym_observe(vf_size(DP));
    sym_observe(at);
    sym_reach("nonblock");
}
