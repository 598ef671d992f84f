// Files with arbitrary header fields, foreign or damaged logs: C09, C14, C08 (as seen through the public API).
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static bool present[NK_MAX];
static uint8_t *sd, *sk;
static uint64_t sdn, skn;
static void snap() {
    sdn = vf_size(DP);
    skn = vf_size(KP);
    sd = (uint8_t*)malloc(sdn);
    sk = (uint8_t*)malloc(skn);
    memcpy(sd, vf_data(DP), sdn);
    memcpy(sk, vf_data(KP), skn);
}
static void unchanged(const char* m) {
    sym_check(vf_exists(DP) && vf_exists(KP), m);
    sym_check(vf_size(DP) == sdn && vf_size(KP) == skn, m);
    sym_check(!memcmp(vf_data(DP), sd, sdn) && !memcmp(vf_data(KP), sk, skn), m);
}
static void populate(unsigned ni, unsigned bs, float lf) {
    create_db(bs, lf);
    nudb::context ctx;
    store_t db(ctx);
    error_code ec;
    db.open(DP, KP, LP, ec);
    for(unsigned i = 0; i < ni; i++) {
        error_code e = do_insert(db, i);
        sym_check(!e, "insert succeeds");
        present[i] = true;
    }
    db.close(ec);
    sym_check(!ec, "close succeeds");
}
static void put(uint8_t* p, uint64_t v, unsigned n) {
    for(unsigned i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * (n - 1 - i)));
}
static uint64_t ref_pepper(uint64_t salt) {
    uint8_t le[8];
    for(int i = 0; i < 8; i++) le[i] = (uint8_t)(salt >> (8 * i));
    return SymHasher(salt)(le, 8);
}
struct Hdr {
    uint8_t type[8];
    uint64_t ver, uid, app, ks, salt, pep, bs, lf;
};
static void sym_hdr(Hdr& h, const char* t, unsigned mask, bool key) {
    memcpy(h.type, t, 8);
    if(mask & 1) sym_bytes(h.type, 8, "type");
    h.ver = mask & 2 ? sym_bits("version", 16) : 2;
    h.uid = mask & 4 ? sym_u64("uid") : 42;
    h.app = mask & 8 ? sym_u64("appnum") : 7;
    h.ks = mask & 16 ? sym_bits("key_size", 16) : g_ks;
    if(key) {
        h.salt = mask & 32 ? sym_u64("salt") : g_salt0;
        h.pep = mask & 64 ? sym_u64("pepper") : ref_pepper(h.salt);
        h.bs = mask & 128 ? sym_bits("block_size", 16) : 104;
        h.lf = mask & 256 ? sym_bits("load_factor", 16) : 32768;
    }
}
static void put_hdr(uint8_t* p, const Hdr& h, bool key) {
    memcpy(p, h.type, 8);
    put(p + 8, h.ver, 2);
    put(p + 10, h.uid, 8);
    put(p + 18, h.app, 8);
    put(p + 26, h.ks, 2);
    if(key) {
        put(p + 28, h.salt, 8);
        put(p + 36, h.pep, 8);
        put(p + 44, h.bs, 2);
        put(p + 46, h.lf, 2);
    }
}
static bool is(const uint8_t* a, const char* t) {
    unsigned d = 0;
    for(int i = 0; i < 8; i++) d |= a[i] ^ (uint8_t)t[i];
    return d == 0;
}
// arbitrary header fields in both files; the key file is one of several lengths
extern "C" void h_open() {
    setup_keys(2, 0);
    populate(1, 104, 0.5f);
    uint8_t *d = vf_data(DP), *k = vf_data(KP);
    Hdr a, b;
    sym_hdr(a, "nudb.dat", P("dmask", 31), false);
    sym_hdr(b, "nudb.key", P("kmask", 511), true);
    put_hdr(d, a, false);
    put_hdr(k, b, true);
    static const uint16_t lens[] = {208, 105, 207, 312, 1000};
    unsigned li = (unsigned)sym_choose("keylen", P("lens", 3));
    int ki = vf_find(KP);
    vf_setsize(ki, lens[li], lens[li]);
    uint64_t kl = lens[li];
    snap();
    bool ok = is(a.type, "nudb.dat") & is(b.type, "nudb.key") & (a.ver == 2) & (b.ver == 2) & (a.ks >= 1) &
              (a.ks == b.ks) & (a.uid == b.uid) & (a.app == b.app) & (b.pep == ref_pepper(b.salt)) & (b.lf >= 1) &
              (b.bs >= 104) & (2 * b.bs <= kl);
    nudb::context ctx;
    store_t db(ctx);
    error_code ec;
    db.open(DP, KP, LP, ec);
    unchanged("open never modifies the data or key file");
    if(ec) {
        sym_check(!ok, "a valid, matching pair of files opens");
        sym_check(!db.is_open(), "a refused database is not open");
        sym_check(ec.category() == nudb::make_error_code(nudb::error::success).category(),
                  "the refusal is a library error");
        sym_observe(ec.value());
        int v = ec.value();
        using E = nudb::error; // the reported code names a condition that really holds
        bool just = v == (int)E::not_data_file          ? !is(a.type, "nudb.dat")
                    : v == (int)E::not_key_file         ? !is(b.type, "nudb.key")
                    : v == (int)E::different_version    ? (a.ver != 2) | (b.ver != 2)
                    : v == (int)E::invalid_key_size     ? (a.ks == 0) | (b.ks == 0)
                    : v == (int)E::hash_mismatch        ? b.pep != ref_pepper(b.salt)
                    : v == (int)E::invalid_load_factor  ? b.lf == 0
                    : v == (int)E::invalid_capacity     ? b.bs < 104
                    : v == (int)E::invalid_block_size   ? b.bs < 104
                    : v == (int)E::invalid_bucket_count ? 2 * b.bs > kl
                    : v == (int)E::short_key_file       ? 2 * b.bs > kl
                    : v == (int)E::uid_mismatch         ? a.uid != b.uid
                    : v == (int)E::appnum_mismatch      ? a.app != b.app
                    : v == (int)E::key_size_mismatch    ? a.ks != b.ks
                    : v == (int)E::short_read           ? true
                                                        : false;
        sym_check(just, "the error code names what is wrong");
        sym_reach("refused");
    } else {
        sym_check(ok, "invalid or mismatching files are refused");
        sym_check(db.is_open() && db.appnum() == a.app && db.key_size() == a.ks && db.block_size() == b.bs,
                  "accessors report the stored fields");
        db.close(ec);
        sym_check(!ec, "close succeeds");
        unchanged("open and close without inserts leave the files alone");
        sym_reach("accepted");
    }
    sym_check(vf_misuse == 0, "no operation on a closed descriptor");
}
// truncated data or key file headers
extern "C" void h_open_short() {
    setup_keys(2, 0);
    populate(1, 104, 0.5f);
    unsigned w = (unsigned)sym_choose("which", 2);
    int i = vf_find(w ? KP : DP);
    uint64_t n = sym_below("length", w ? 208 : 92);
    if(w) sym_assume(n > 104);
    vf_setsize(i, n, w ? 208 : 92);
    snap();
    nudb::context ctx;
    store_t db(ctx);
    error_code ec;
    db.open(DP, KP, LP, ec);
    sym_check((bool)ec, "a truncated file is refused");
    sym_check(!db.is_open(), "not open");
    sym_check(vf_exists(DP) && vf_exists(KP) && vf_size(DP) == sdn && vf_size(KP) == skn,
              "truncated files are left alone");
    sym_reach("short");
}
// ---- C14
static uint8_t* mklog(uint64_t n) {
    if(vf_exists(LP)) vf[vf_find(LP)].linked = false;
    int i = vf_new(LP);
    vf_setsize(i, n, n);
    return vf_d[i];
}
static error_code rec() {
    error_code ec;
    nudb::recover<SymHasher, nudb::posix_file>(DP, KP, LP, ec);
    return ec;
}
extern "C" void h_nolog() {
    setup_keys(2, 0);
    populate(2, 104, 0.5f);
    snap();
    unsigned w = (unsigned)sym_choose("log", 2);
    if(w) {
        uint8_t* l = mklog(62);
        sym_bytes(l, 62, "log");
        int i = vf_find(LP);
        uint64_t n = sym_below("loglen", 62);
        vf_setsize(i, n, 62);
    }
    error_code e = rec();
    sym_check(!e, "recovery succeeds");
    unchanged("recovery without a complete log header changes nothing");
    sym_check(!vf_exists(LP), "the log is removed");
    check_format(present, 2, 104);
    sym_check(vf_openfds() == 0, "every descriptor closed");
    sym_reach("nolog");
}
// log with arbitrary header fields (records: none)
extern "C" void h_loghdr() {
    setup_keys(2, 0);
    populate(2, 104, 0.5f);
    snap();
    uint8_t* l = mklog(62);
    uint8_t type[8];
    unsigned m = P("mask", 1023);
    memcpy(type, "nudb.log", 8);
    if(m & 1) sym_bytes(type, 8, "type");
    memcpy(l, type, 8);
    uint64_t ver = m & 2 ? sym_bits("version", 16) : 2, uid = m & 4 ? sym_u64("uid") : 42,
             app = m & 8 ? sym_u64("appnum") : 7, ks = m & 16 ? sym_bits("key_size", 16) : g_ks,
             salt = m & 32 ? sym_u64("salt") : g_salt0, pep = m & 64 ? sym_u64("pepper") : ref_pepper(salt),
             bs = m & 128 ? sym_bits("block_size", 16) : 104;
    unsigned kc = (unsigned)sym_choose("key_file_size", 3);
    uint64_t kfs = kc == 0 ? skn : kc == 1 ? 208 : 0, dfs = sdn;
    put(l + 8, ver, 2);
    put(l + 10, uid, 8);
    put(l + 18, app, 8);
    put(l + 26, ks, 2);
    put(l + 28, salt, 8);
    put(l + 36, pep, 8);
    put(l + 44, bs, 2);
    put(l + 46, kfs, 8);
    put(l + 54, dfs, 8);
    bool self = is(type, "nudb.log") & (ver == 2) & (pep == ref_pepper(salt)) & (ks >= 1);
    bool owner = (uid == 42) & (app == 7) & (ks == g_ks);
    bool ok = kfs ? self & owner & (salt == g_salt0) & (bs == 104) : self & owner;
    error_code e = rec();
    sym_observe(e ? e.value() : 0);
    if(e) {
        sym_check(!ok, "a matching log is accepted");
        unchanged("a refused log changes neither file");
        sym_check(vf_exists(LP), "a refused log is kept");
        sym_reach("refused");
    } else {
        sym_check(ok, "a log of another database is refused");
        sym_check(vf_size(DP) == sdn && !memcmp(vf_data(DP), sd, sdn), "data file as logged");
        sym_check(!vf_exists(LP), "log removed");
        if(kfs) {
            sym_check(vf_size(KP) == kfs, "key file has the logged size");
            sym_reach("applied");
        } else {
            sym_check(!vf_exists(KP), "an unfinished rekey leaves no key file");
            sym_reach("rekey log");
        }
    }
}
// a matching log with nr records for arbitrary buckets, cut anywhere after its header, possibly with data and key files
// that grew afterwards
extern "C" void h_logcut() {
    unsigned nr = P("nr", 2), bs = 104;
    setup_keys(4, 0);
    populate(3, bs, 0.5f);
    uint64_t kn = sym_concretize(vf_size(KP)), dn = sym_concretize(vf_size(DP)), nbk = kn / bs - 1;
    snap();
    uint8_t* l = mklog(62 + nr * (8 + 8 + 18 * 5));
    memcpy(l, "nudb.log", 8);
    put(l + 8, 2, 2);
    put(l + 10, 42, 8);
    put(l + 18, 7, 8);
    put(l + 26, g_ks, 2);
    put(l + 28, g_salt0, 8);
    put(l + 36, ref_pepper(g_salt0), 8);
    put(l + 44, bs, 2);
    put(l + 46, kn, 8);
    put(l + 54, dn, 8);
    uint64_t end[5];
    unsigned idx[4];
    uint8_t img[4][104];
    uint64_t p = 62;
    for(unsigned r = 0; r < nr; r++) {
        idx[r] = (unsigned)sym_choose("bucket", nbk);
        unsigned c = (unsigned)sym_choose("count", P("maxc", 2) + 1);
        put(l + p, idx[r], 8);
        uint8_t* b = l + p + 8;
        put(b, c, 2);
        uint64_t sp = sym_bits("spill", 48);
        sym_assume(sp == 0 || sp + 8 + 18 * 5 <= dn);
        put(b + 2, sp, 6);
        uint64_t ph = 0;
        for(unsigned e = 0; e < c; e++) {
            uint64_t o = sym_bits("offset", 48), z = sym_bits("size", 32), h = sym_bits("ehash", 48);
            sym_assume(z > 0 && h >= ph);
            ph = h;
            put(b + 8 + 18 * e, o, 6);
            put(b + 14 + 18 * e, z, 6);
            put(b + 20 + 18 * e, h, 6);
        }
        memset(img[r], 0, bs);
        memcpy(img[r], b, 8 + 18 * c);
        p += 16 + 18 * c;
        end[r] = p;
    }
    int li = vf_find(LP);
    uint64_t cut = sym_u64("cut");
    sym_assume(cut >= 62 && cut <= p);
    vf_setsize(li, cut, p);
    // the interrupted commit appended to both files and overwrote buckets
    unsigned g = (unsigned)sym_choose("grown", 2);
    int ki = vf_find(KP), di = vf_find(DP);
    if(g) {
        sym_bytes(vf_d[ki] + kn, bs, "newbucket");
        vf_setsize(ki, kn + bs, kn + bs);
        sym_bytes(vf_d[di] + dn, 9, "newdata");
        vf_setsize(di, dn + 9, dn + 9);
    }
    error_code e = rec();
    sym_check(!e, "a matching log is accepted wherever it was cut");
    sym_check(vf_size(KP) == kn && vf_size(DP) == dn, "files have the logged sizes");
    sym_check(!vf_exists(LP), "log removed");
    sym_check(!memcmp(vf_data(DP), sd, dn), "data file restored");
    const uint8_t* k = vf_data(KP);
    sym_check(!memcmp(k, sk, bs), "key file header untouched");
    for(unsigned b = 0; b < nbk; b++) {
        const uint8_t* want = sk + (b + 1) * bs;
        for(unsigned r = 0; r < nr; r++)
            if(idx[r] == b) {
                if(end[r] <= cut) want = img[r];
            }
        sym_check(!memcmp(k + (b + 1) * bs, want, bs), "exactly the completely logged buckets are restored");
    }
    sym_check(vf_openfds() == 0, "every descriptor closed");
    sym_reach("logcut");
    if(g) sym_reach("grown");
}
