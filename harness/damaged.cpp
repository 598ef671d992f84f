// Files with arbitrary contents: never a memory error, always an answer: C27.
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static const unsigned bs = 104;
static unsigned ni;
static void put(uint8_t* p, uint64_t v, unsigned n) {
    for(unsigned i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * (n - 1 - i)));
}
static void populate() {
    ni = P("ni", 2);
    setup_keys(ni + 1, P("hmode", 0), P("hb", 1));
    create_db(bs, P("lf", 90) / 100.0f);
    nudb::context ctx;
    store_t db(ctx);
    error_code ec;
    db.open(DP, KP, LP, ec);
    for(unsigned i = 0; i < ni; i++) {
        error_code e = do_insert(db, i);
        sym_check(!e, "insert succeeds");
    }
    db.close(ec);
    sym_check(!ec, "close succeeds");
}
static uint64_t ref_pepper(uint64_t salt) {
    uint8_t le[8];
    for(int i = 0; i < 8; i++) le[i] = (uint8_t)(salt >> (8 * i));
    return SymHasher(salt)(le, 8);
}
static void done(const char* l) {
    sym_check(vf_openfds() == 0, "descriptors closed");
    sym_check(vf_misuse == 0, "no operation on a closed descriptor");
    sym_reach(l);
}
// ---- log: matching header, then arbitrary bytes
extern "C" void h_dmg_log() {
    populate();
    uint64_t kn = sym_concretize(vf_size(KP)), dn = sym_concretize(vf_size(DP));
    unsigned n = P("bytes", 30);
    int i = vf_new(LP);
    uint8_t* l = vf_d[i];
    memcpy(l, "nudb.log", 8);
    put(l + 8, 2, 2);
    put(l + 10, 42, 8);
    put(l + 18, 7, 8);
    put(l + 26, g_ks, 2);
    put(l + 28, g_salt0, 8);
    put(l + 36, ref_pepper(g_salt0), 8);
    put(l + 44, bs, 2);
    put(l + 46, kn, 8);
    put(l + 54, dn, 8);
    sym_bytes(l + 62, n, "logbytes");
    memset(l + 62 + n, 0, P("pad", 1300));
    uint64_t len = 62 + n + P("pad", 1300);
    vf_setsize(i, len, len);
    error_code ec;
    nudb::recover<SymHasher, nudb::posix_file>(DP, KP, LP, ec);
    sym_observe(ec ? 1 : 0);
    if(ec)
        sym_reach("refused");
    else
        sym_reach("accepted");
    done("log");
}
// ---- one bucket of the key file: arbitrary count, spill offset and entries
static void damage_bucket(unsigned maxe) {
    uint8_t* k = vf_data(KP);
    uint64_t nbk = sym_concretize(vf_size(KP)) / bs - 1, dn = sym_concretize(vf_size(DP));
    uint64_t b = sym_choose("bucket", nbk);
    uint8_t* q = k + (b + 1) * bs;
    uint64_t c = sym_bits("count", 16);
    put(q, c, 2);
    uint64_t sp = sym_bits("spill", 48);
    sym_assume(sp == 0 || (sp >= dn - P("spwin", 4) && sp <= dn + 4) || sp > (1ull << 40));
    put(q + 2, sp, 6);
    for(unsigned e = 0; e < maxe; e++) {
        uint64_t o = sym_bits("offset", 48);
        sym_assume(o <= 8 || (o >= dn - P("win", 6) && o <= dn) || o > (1ull << 40));
        put(q + 8 + 18 * e, o, 6);
        put(q + 14 + 18 * e,
            sym_choose("hugesize", 2) ? 0xfffe0000ull : sym_concretize(sym_below("size", P("maxsize", 3))), 6);
        put(q + 20 + 18 * e, sym_bits("ehash", 48), 6);
    }
}
extern "C" void h_dmg_bucket() {
    populate();
    damage_bucket(P("entries", 1));
    {
        nudb::context ctx;
        store_t db(ctx);
        error_code ec;
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "headers are fine");
        for(unsigned i = 0; i < g_nk; i++) {
            uint8_t k[KMAX];
            key_of(i, k);
            error_code fe;
            unsigned sz = 0;
            db.fetch(
                k,
                [&](void const* p, std::size_t n) {
                    const uint8_t* b = (const uint8_t*)p;
                    unsigned x = 0;
                    for(std::size_t j = 0; j < n && j < 64; j++) x += b[j];
                    sz = (unsigned)n;
                },
                fe);
            sym_reach(fe ? "fetch error" : "fetch ok");
        }
        if(P("insert", 1)) {
            error_code e = do_insert(db, ni);
            sym_reach(e ? "insert error" : "insert ok");
            error_code ce;
            db.close(ce);
            sym_reach(ce ? "close error" : "close ok");
        }
    }
    done("bucket");
}
extern "C" void h_dmg_bucket_verify() {
    populate();
    damage_bucket(P("entries", 1));
    nudb::verify_info vi;
    error_code ec;
    unsigned c = (unsigned)sym_choose("buffer", 2);
    nudb::verify<SymHasher>(vi, DP, KP, c ? 1000000 : 0, nudb::no_progress{}, ec);
    sym_observe(ec ? 1 : 0);
    done("verify");
}
// ---- data file: arbitrary bytes after the header
static void damage_data() {
    uint64_t dn = DAT_HDR + P("bytes", 14);
    int i = vf_find(DP);
    memset(vf_d[i] + DAT_HDR, 0, VF_CAP - DAT_HDR);
    sym_bytes(vf_d[i] + DAT_HDR, P("bytes", 14), "data");
    vf_setsize(i, dn, dn);
}
extern "C" void h_dmg_visit() {
    populate();
    damage_data();
    error_code ec;
    unsigned n = 0, x = 0;
    nudb::visit(
        DP,
        [&](void const* k, std::size_t ks, void const* d, std::size_t s, error_code&) {
            n++;
            const uint8_t *a = (const uint8_t*)k, *b = (const uint8_t*)d;
            for(std::size_t j = 0; j < ks; j++) x += a[j];
            s = sym_concretize(s);
            for(std::size_t j = 0; j < s; j++) x += b[j];
        },
        nudb::no_progress{}, ec);
    sym_observe(n);
    sym_reach(ec ? "visit error" : "visit ok");
    done("visit");
}
extern "C" void h_dmg_data_verify() {
    populate();
    damage_data();
    nudb::verify_info vi;
    error_code ec;
    unsigned c = (unsigned)sym_choose("buffer", 2);
    nudb::verify<SymHasher>(vi, DP, KP, c ? 1000000 : 0, nudb::no_progress{}, ec);
    sym_observe(ec ? 1 : 0);
    done("verify");
}
extern "C" void h_dmg_rekey() {
    populate();
    vf[vf_find(KP)].linked = false;
    damage_data();
    error_code ec;
    nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, 104, 0.9f, 4, 100000, ec, nudb::no_progress{});
    sym_observe(ec ? 1 : 0);
    sym_reach(ec ? "rekey error" : "rekey ok");
    done("rekey");
}
extern "C" void h_dmg_data_fetch() {
    populate();
    int i = vf_find(DP);
    uint64_t dn = sym_concretize(vf_size(DP));
    sym_bytes(vf_d[i] + DAT_HDR, dn - DAT_HDR, "data");
    uint64_t cut = sym_below("cut", dn - DAT_HDR + 1);
    vf_setsize(i, DAT_HDR + cut, dn);
    {
        nudb::context ctx;
        store_t db(ctx);
        error_code ec;
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "headers are fine");
        for(unsigned j = 0; j < g_nk; j++) {
            uint8_t k[KMAX];
            key_of(j, k);
            error_code fe;
            db.fetch(
                k,
                [&](void const* p, std::size_t n) {
                    const uint8_t* b = (const uint8_t*)p;
                    unsigned x = 0;
                    for(std::size_t q = 0; q < n; q++) x += b[q];
                },
                fe);
            sym_reach(fe ? "fetch error" : "fetch ok");
        }
    }
    done("data");
}
// ---- spill chain: every spill offset of the bucket and of two spill records is arbitrary (cycles included)
static void damage_chain() {
    uint8_t* k = vf_data(KP);
    uint64_t nbk = sym_concretize(vf_size(KP)) / bs - 1;
    int i = vf_find(DP);
    uint64_t dn = sym_concretize(vf_size(DP)), A = dn + 8, B = A + 106, end = B + 98;
    memset(vf_d[i] + dn, 0, VF_CAP - dn);
    put(vf_d[i] + dn + 6, 98, 2);
    put(vf_d[i] + A + 98 + 6, 98, 2);
    vf_setsize(i, end, end);
    uint64_t at[3] = {0, A, B};
    for(unsigned j = 0; j < 3; j++) {
        uint8_t* q = j == 0 ? k + (1 + sym_choose("bucket", nbk)) * bs : vf_d[i] + at[j];
        uint64_t s = sym_bits("spill", 48);
        sym_assume(s == 0 || s == A || s == B || s > end - 98);
        if(j) put(q, sym_choose("count", 2) * 5, 2);
        put(q + 2, s, 6);
    }
}
extern "C" void h_dmg_chain() {
    populate();
    damage_chain();
    {
        nudb::context ctx;
        store_t db(ctx);
        error_code ec;
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "headers are fine");
        for(unsigned i = 0; i < g_nk; i++) {
            uint8_t k[KMAX];
            key_of(i, k);
            error_code fe;
            db.fetch(k, [](void const*, std::size_t) {}, fe);
            sym_reach(fe ? "fetch error" : "fetch ok");
        }
        if(P("insert", 1)) {
            error_code e = do_insert(db, ni);
            sym_reach(e ? "insert error" : "insert ok");
            error_code ce;
            db.close(ce);
            sym_reach(ce ? "close error" : "close ok");
        }
    }
    done("chain");
}
extern "C" void h_dmg_chain_verify() {
    populate();
    damage_chain();
    nudb::verify_info vi;
    error_code ec;
    unsigned c = (unsigned)sym_choose("buffer", 2);
    nudb::verify<SymHasher>(vi, DP, KP, c ? 1000000 : 0, nudb::no_progress{}, ec);
    sym_observe(ec ? 1 : 0);
    sym_reach(ec ? "verify error" : "verify ok");
    done("chain verify");
}
