// Creating databases, and the bytes of their files: C19, C08 (seen through the public API).
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static uint64_t ref_pepper(uint64_t salt) {
    uint8_t le[8];
    for(int i = 0; i < 8; i++) le[i] = (uint8_t)(salt >> (8 * i));
    return SymHasher(salt)(le, 8);
}
// floor(65536 * f) of a float in (0,1), kept within 1..65535
static uint64_t ref_lf(uint32_t bits) {
    uint32_t e = bits >> 23;
    uint64_t m = (bits & 0x7fffff) | (e ? 0x800000 : 0);
    uint64_t r = e > 110 ? m >> (134 - e) : 0;
    if(r < 1) r = 1;
    if(r > 65535) r = 65535;
    return r;
}
static error_code do_create(uint64_t app, uint64_t uid, uint64_t salt, uint64_t ks, uint64_t bs, float lf) {
    error_code ec;
    nudb::create<SymHasher, nudb::posix_file>(DP, KP, LP, app, uid, salt, ks, bs, lf, ec);
    return ec;
}
static void check_headers(uint64_t app, uint64_t uid, uint64_t salt, uint64_t ks, uint64_t bs, uint64_t lf) {
    const uint8_t *d = vf_data(DP), *k = vf_data(KP);
    sym_check(vf_exists(DP) && vf_exists(KP), "data and key file exist");
    sym_check(vf_size(DP) == DAT_HDR, "data file holds its header");
    sym_check(vf_size(KP) == 2 * bs, "key file holds a header block and one bucket");
    sym_check(!memcmp(d, "nudb.dat", 8), "data file: type");
    sym_check(be_at(d + 8, 2) == 2, "data file: version");
    sym_check(be_at(d + 10, 8) == uid, "data file: uid");
    sym_check(be_at(d + 18, 8) == app, "data file: appnum");
    sym_check(be_at(d + 26, 2) == ks, "data file: key size");
    for(unsigned i = 28; i < DAT_HDR; i++) sym_check(d[i] == 0, "data file: reserved");
    sym_check(!memcmp(k, "nudb.key", 8), "key file: type");
    sym_check(be_at(k + 8, 2) == 2, "key file: version");
    sym_check(be_at(k + 10, 8) == uid, "key file: uid");
    sym_check(be_at(k + 18, 8) == app, "key file: appnum");
    sym_check(be_at(k + 26, 2) == ks, "key file: key size");
    sym_check(be_at(k + 28, 8) == salt, "key file: salt");
    sym_check(be_at(k + 36, 8) == ref_pepper(salt), "key file: pepper");
    sym_check(be_at(k + 44, 2) == bs, "key file: block size");
    sym_check(be_at(k + 46, 2) == lf, "key file: load factor");
    for(unsigned i = 48; i < 2 * bs; i++) sym_check(k[i] == 0, "key file: reserved bytes and empty bucket");
}
static void no_files() {
    sym_check(!vf_exists(DP) && !vf_exists(KP) && !vf_exists(LP), "a failed create leaves no file");
    sym_check(vf_openfds() == 0, "every descriptor closed");
    sym_check(vf_misuse == 0, "no operation on a closed descriptor");
}
// arbitrary arguments
extern "C" void h_create_args() {
    uint64_t app = sym_u64("appnum"), uid = sym_u64("uid"), salt = sym_u64("salt"), ks, bs;
    static const uint16_t good[] = {104, 105, 121, 122, 1000, 4096, 140, 139};
    unsigned kc = (unsigned)sym_choose("kclass", 2);
    if(kc == 0) {
        ks = sym_u64("key_size");
    } else {
        static const uint8_t kk[] = {1, 2, 16};
        ks = kk[sym_choose("ks", 3)];
    }
    unsigned bc = (unsigned)sym_choose("bclass", 2 + P("nbs", 6));
    if(bc == 0) {
        bs = sym_below("block_size", 104);
    } else if(bc == 1) {
        bs = sym_u64("block_size");
        sym_assume(bs > 65535);
    } else
        bs = good[bc - 2];
    uint32_t lb = 0x3f000000;
    if(sym_choose("lclass", 2)) lb = (uint32_t)sym_bits("load_factor", 32);
    float lf;
    memcpy(&lf, &lb, 4);
    bool lok = (lb >> 31) == 0 && lb != 0 && lb < 0x3f800000u; // (0,1) as a bit pattern
    bool kok = ks >= 1 && ks <= 65535, bok = bs >= 104 && bs <= 65535;
    error_code ec = do_create(app, uid, salt, ks, bs, lf);
    if(ec) {
        sym_check(!(kok && bok && lok), "create accepts valid arguments");
        no_files();
        bool just = ec == nudb::error::invalid_key_size      ? !kok
                    : ec == nudb::error::invalid_block_size  ? !bok
                    : ec == nudb::error::invalid_load_factor ? !lok
                                                             : false;
        sym_check(just, "the error names an argument that is invalid");
        sym_reach("refused");
    } else {
        sym_check(kok && bok && lok, "create refuses invalid arguments");
        check_headers(app, uid, salt, ks, bs, ref_lf(lb));
        sym_reach("created");
        g_salt0 = salt;
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "the new database opens");
        sym_check(db.appnum() == app && db.key_size() == ks && db.block_size() == bs,
                  "the database reports what was requested");
        sym_check(db.dat_path() == DP && db.key_path() == KP && db.log_path() == LP, "paths");
        if(kc) {
            g_ks = (unsigned)ks;
            setup_keys(2, 0);
            sym_check(do_fetch(db, 1) == F_ABSENT, "empty");
            error_code e = do_insert(db, 0);
            sym_check(!e, "usable: insert");
            sym_check(do_fetch(db, 0) == F_FOUND, "usable: fetch");
            db.close(ec);
            sym_check(!ec, "close");
            error_code e2;
            db.open(DP, KP, LP, e2);
            sym_check(!e2, "reopen");
            sym_check(do_fetch(db, 0) == F_FOUND && do_fetch(db, 1) == F_ABSENT, "usable: fetch after reopen");
            db.close(e2);
            sym_check(!e2, "close");
            const uint8_t* d = vf_data(DP);
            sym_check(be_at(d + 10, 8) == uid && be_at(d + 18, 8) == app, "header kept");
            sym_reach("used");
        } else {
            db.close(ec);
            sym_check(!ec, "close");
            check_headers(app, uid, salt, ks, bs, ref_lf(lb));
        }
    }
    sym_observe(ec.value());
}
// some of the files exist already
static uint8_t pre[3][16];
static unsigned mask;
static const char* nm[3] = {"d", "k", "l"};
static void make_pre(unsigned m) {
    mask = m;
    for(int i = 0; i < 3; i++)
        if(m >> i & 1) {
            sym_bytes(pre[i], 16, "old");
            int ino = vf_new(nm[i]);
            memcpy(vf_d[ino], pre[i], 16);
            vf_setsize(ino, 16, 16);
        }
}
static void check_pre() {
    for(int i = 0; i < 3; i++)
        if(mask >> i & 1) {
            sym_check(vf_exists(nm[i]) && vf_size(nm[i]) == 16 && !memcmp(vf_data(nm[i]), pre[i], 16),
                      "a pre-existing file is untouched");
        } else
            sym_check(!vf_exists(nm[i]), "a failed create leaves no file");
    sym_check(vf_openfds() == 0, "every descriptor closed");
}
extern "C" void h_create_exists() {
    make_pre(1 + (unsigned)sym_choose("existing", 7));
    uint64_t app = sym_u64("appnum"), uid = sym_u64("uid"), salt = sym_u64("salt");
    error_code ec = do_create(app, uid, salt, 4, 104, 0.5f);
    sym_check((bool)ec, "create refuses existing files");
    sym_check(ec == boost::system::errc::make_error_condition(boost::system::errc::file_exists), "and says so");
    check_pre();
    sym_observe(ec.value());
    sym_reach("exists");
}
// any file operation fails
extern "C" void h_create_fault() {
    make_pre((unsigned)sym_choose("existing", P("npre", 8)));
    vf_unlink_ok = true;
    vf_fault_at = sym_below("fault_at", P("limit", 200));
    vf_fault_mode = sym_choose("fault_mode", 3);
    vf_fault_on = true;
    error_code ec = do_create(1, 2, 3, 4, 104, 0.5f);
    vf_fault_on = false;
    if(!vf_faults) {
        sym_reach("past the last operation");
        sym_kill();
    }
    sym_check((bool)ec, "a failed file operation is reported");
    bool inj = ec.category() == boost::system::system_category() &&
               (ec.value() == EIO || ec.value() == ENOSPC || ec.value() == EACCES);
    sym_check(inj, "the reported error is the one that happened");
    check_pre();
    sym_check(vf_misuse == 0, "no operation on a closed descriptor");
    if(!mask) {
        ec = {};
        ec = do_create(1, 2, 3, 4, 104, 0.5f);
        sym_check(!ec, "create works once the fault is gone");
        sym_reach("retried");
    }
    sym_reach("fault");
}
// the log file written by a commit, and by rekey
static uint8_t lg[2048];
static uint64_t lgn;
static bool lgs;
static uint8_t oldkey[4096];
static uint64_t okn;
static void log_hook(int kind, int ino, uint64_t off, uint64_t) {
    if((kind == K_TRUNC && off == 0) || kind == K_UNLINK)
        if(!strcmp(vf[ino].name, "l") && vf[ino].size && !lgs) {
            lgn = sym_concretize(vf[ino].size);
            sym_check(lgn <= sizeof lg, "harness bound: log size");
            memcpy(lg, vf_d[ino], lgn);
            lgs = true;
        }
}
static void check_log(uint64_t app, uint64_t uid, uint64_t salt, unsigned bs, uint64_t kfs, uint64_t dfs) {
    sym_check(lgs, "a log was written");
    sym_check(lgn >= LOG_HDR, "log header is complete");
    sym_check(!memcmp(lg, "nudb.log", 8), "log: type");
    sym_check(be_at(lg + 8, 2) == 2, "log: version");
    sym_check(be_at(lg + 10, 8) == uid, "log: uid");
    sym_check(be_at(lg + 18, 8) == app, "log: appnum");
    sym_check(be_at(lg + 26, 2) == g_ks, "log: key size");
    sym_check(be_at(lg + 28, 8) == salt, "log: salt");
    sym_check(be_at(lg + 36, 8) == ref_pepper(salt), "log: pepper");
    sym_check(be_at(lg + 44, 2) == bs, "log: block size");
    sym_check(be_at(lg + 46, 8) == kfs, "log: key file size");
    sym_check(be_at(lg + 54, 8) == dfs, "log: data file size");
    uint64_t p = LOG_HDR;
    unsigned n = 0;
    while(p < lgn) {
        sym_check(p + 16 <= lgn, "log record");
        uint64_t idx = be_at(lg + p, 8), c = sym_concretize(be_at(lg + p + 8, 2));
        p += 8;
        sym_check(c <= (bs - 8) / 18, "log record: count");
        uint64_t len = 8 + 18 * c;
        sym_check(p + len <= lgn, "log record complete");
        sym_check((idx + 2) * bs <= okn, "log record: index");
        idx = sym_concretize(idx);
        sym_check(!memcmp(lg + p, oldkey + (idx + 1) * bs, len), "log record: the bucket before the commit");
        p += len;
        n++;
    }
    sym_check(p == lgn, "log ends after a record");
    if(n) sym_reach("log records");
    sym_observe(n);
}
extern "C" void h_log_bytes() {
    uint64_t app = sym_u64("appnum"), uid = sym_u64("uid"), salt = sym_u64("salt");
    static const uint16_t bss[] = {104, 122, 300};
    unsigned bs = bss[sym_choose("bs", P("nbs", 2))];
    static const uint8_t kk[] = {2, 1, 16};
    g_ks = kk[sym_choose("ks", 3)];
    unsigned ni = P("ni", 3), nn = P("nn", 2);
    setup_keys(ni + nn, P("hmode", 5), P("hb", 1));
    g_salt0 = salt;
    vf_hook = log_hook;
    error_code ec = do_create(app, uid, salt, g_ks, bs, 0.9f);
    sym_check(!ec, "create");
    {
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open");
        for(unsigned i = 0; i < ni; i++) {
            error_code e = do_insert(db, i);
            sym_check(!e, "insert");
        }
        ctx.flush();
        okn = sym_concretize(vf_size(KP));
        sym_check(okn <= sizeof oldkey, "harness bound: key file size");
        memcpy(oldkey, vf_data(KP), okn);
        uint64_t dn = vf_size(DP);
        lgs = false;
        for(unsigned i = ni; i < ni + nn; i++) {
            error_code e = do_insert(db, i);
            sym_check(!e, "insert");
        }
        ctx.flush();
        check_log(app, uid, salt, bs, okn, dn);
        sym_reach("commit log");
        db.close(ec);
        sym_check(!ec, "close");
    }
    if(P("rekey", 1)) {
        int ki = vf_find(KP);
        vf[ki].linked = false;
        lgs = false;
        uint64_t dn = vf_size(DP);
        uint64_t salt2 = sym_u64("salt2");
        nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, bs, 0.5f, ni + nn, 4096, ec, nudb::no_progress{});
        sym_check(!ec, "rekey");
        (void)salt2;
        salt2 = be_at(vf_data(KP) + 28, 8);
        okn = 0;
        sym_check(be_at(vf_data(KP) + 10, 8) == uid && be_at(vf_data(KP) + 18, 8) == app &&
                      be_at(vf_data(KP) + 26, 2) == g_ks && be_at(vf_data(KP) + 44, 2) == bs &&
                      be_at(vf_data(KP) + 46, 2) == 32768,
                  "rekey: key file header");
        sym_check(lgn == LOG_HDR, "rekey log holds a header only");
        check_log(app, uid, salt2, bs, 0, dn);
        sym_reach("rekey log");
    }
}
