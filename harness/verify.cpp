// Verify: accepts every database the library makes with the right counts, reports every broken one: C17.
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static bool present[NK_MAX];
static unsigned ni, bs;
static void setup() {
    ni = P("ni", 3);
    bs = P("bs", 104);
    setup_keys(ni + P("extra", 0), P("hmode", 0), P("hb", 2));
    create_db(bs, P("lf", 90) / 100.0f);
    unsigned every = P("every", 0);
    error_code ec;
    nudb::context ctx;
    store_t db(ctx);
    db.open(DP, KP, LP, ec);
    for(unsigned i = 0; i < ni; i++) {
        error_code e = do_insert(db, i);
        sym_check(!e, "insert succeeds");
        present[i] = true;
        if(every && (i + 1) % every == 0) ctx.flush();
    }
    db.close(ec);
    sym_check(!ec, "close succeeds");
}
static size_t buf_choice() {
    unsigned c = (unsigned)sym_choose("buffer", P("bufs", 4));
    return c == 0 ? 0 : c == 1 ? 1000000 : c == 2 ? 2 * bs + sizeof(nudb::nkey_t) : 3 * bs + 2 * sizeof(nudb::nkey_t);
}
struct Prog {
    uint64_t* last;
    unsigned* n;
    void operator()(uint64_t a, uint64_t w) const {
        ++*n;
        (void)a;
        (void)w;
    }
};
static nudb::verify_info vi;
static error_code run_verify(size_t b) {
    error_code ec;
    uint64_t last = 0;
    unsigned n = 0;
    nudb::verify<SymHasher>(vi, DP, KP, b, Prog{&last, &n}, ec);
    sym_check(vf_openfds() == 0, "descriptors closed");
    return ec;
}
extern "C" void h_verify_good() {
    setup();
    size_t b = buf_choice();
    uint64_t dn = sym_concretize(vf_size(DP)), kn = sym_concretize(vf_size(KP));
    unsigned calls[10];
    memcpy(calls, vf_calls, sizeof calls);
    error_code ec = run_verify(b);
    sym_check(!ec, "verify accepts a database the library made");
    sym_check(vf_calls[K_PWRITE] == calls[K_PWRITE] && vf_calls[K_TRUNC] == calls[K_TRUNC] &&
                  vf_calls[K_CREATE] == calls[K_CREATE] && vf_calls[K_UNLINK] == calls[K_UNLINK],
              "verify only reads");
    const uint8_t *d = vf_data(DP), *k = vf_data(KP);
    uint64_t bytes = 0;
    for(unsigned i = 0; i < ni; i++) bytes += g_vs[i];
    uint64_t nbk = kn / bs - 1, cap = (bs - 8) / 18, st = 0, stb = 0;
    for(uint64_t p = DAT_HDR; p < dn;) {
        uint64_t z = be_at(d + p, 6);
        if(z)
            p += 6 + g_ks + z;
        else {
            uint64_t s = be_at(d + p + 6, 2);
            st++;
            stb += 8 + s;
            p += 8 + s;
        }
    }
    uint64_t su = 0, sub = 0, hist[10] = {0};
    for(uint64_t n = 0; n < nbk; n++) {
        uint64_t sp = sym_concretize(be_at(k + (n + 1) * bs + 2, 6));
        unsigned c = 0;
        while(sp) {
            c++;
            su++;
            sub += 8 + 8 + 18 * sym_concretize(be_at(d + sp, 2));
            sp = sym_concretize(be_at(d + sp + 2, 6));
        }
        hist[c > 9 ? 9 : c]++;
    }
    sym_check(vi.key_count == ni, "key count");
    sym_check(vi.value_count == ni, "value count");
    sym_check(vi.value_bytes == bytes, "value bytes");
    sym_check(vi.buckets == nbk && vi.capacity == cap && vi.bucket_size == 8 + 18 * cap && vi.block_size == bs,
              "bucket figures");
    sym_check(vi.spill_count == su, "spills in use");
    sym_check(vi.spill_count_tot == st, "spills in total");
    sym_check(vi.spill_bytes == sub, "spill bytes in use");
    sym_check(vi.spill_bytes_tot == stb, "spill bytes in total");
    for(int i = 0; i < 10; i++) sym_check(vi.hist[i] == hist[i], "histogram");
    sym_check(vi.version == 2 && vi.uid == 42 && vi.appnum == 7 && vi.key_size == g_ks && vi.salt == g_salt0 &&
                  vi.pepper == be_at(k + 36, 8) && vi.key_file_size == kn && vi.dat_file_size == dn,
              "header figures");
    sym_check(vi.dat_path == DP && vi.key_path == KP, "paths");
    sym_check(vi.load_factor * 65536.f == (float)be_at(k + 46, 2), "load factor");
    sym_check(vi.waste == (stb - sub) / (float)dn, "waste");
    sym_check(vi.actual_load == ni / (float)(cap * nbk), "actual load");
    sym_check(ni == 0 || vi.avg_fetch >= 1.f, "average fetch");
    sym_observe(vi.algorithm);
    sym_observe(su);
    sym_observe(st);
    sym_observe(vi.key_count);
    sym_reach(vi.algorithm ? "fast" : "normal");
    if(su) sym_reach("spills");
    if(st > su) sym_reach("unused spills");
    sym_reach("good");
}
static void put(uint8_t* p, uint64_t v, unsigned n) {
    for(unsigned i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * (n - 1 - i)));
}
// one field changed to any other value
extern "C" void h_verify_bad() {
    setup();
    size_t b = buf_choice();
    uint8_t *d = vf_data(DP), *k = vf_data(KP);
    uint64_t dn = sym_concretize(vf_size(DP)), kn = sym_concretize(vf_size(KP)), nbk = kn / bs - 1, cap = (bs - 8) / 18;
    unsigned kind = (unsigned)sym_choose("kind", 9);
    if(P("only", 99) != 99 && kind != P("only", 99)) sym_kill();
    if(kind < 5) {
        uint64_t n = sym_choose("bucket", nbk);
        uint8_t* q = k + (n + 1) * bs;
        bool inkey = true;
        for(unsigned hop = 0; hop < P("hops", 2); hop++) {
            uint64_t sp = sym_concretize(be_at(q + 2, 6));
            if(!sp || !sym_choose("hop", 2)) break;
            q = d + sp;
            inkey = false;
        }
        uint64_t cnt = sym_concretize(be_at(q, 2));
        (void)inkey;
        if(kind < 3) {
            if(!cnt) sym_kill();
            unsigned e = (unsigned)sym_choose("entry", cnt);
            uint8_t* f = q + 8 + 18 * e + 6 * kind;
            uint64_t old = be_at(f, 6), v = sym_bits("corrupt", kind == 1 ? 32 : 48);
            sym_assume(v != old);
            put(f, v, 6);
            sym_reach(kind == 0 ? "offset" : kind == 1 ? "size" : "hash");
        } else if(kind == 3) {
            uint64_t v = sym_bits("corrupt", 16);
            sym_assume(v != cnt);
            if(!inkey) sym_assume(v > cnt || v < cnt);
            put(q, v, 2);
            sym_reach("count");
        } else {
            uint64_t old = sym_concretize(be_at(q + 2, 6));
            uint64_t v = sym_choose("spillto", 2) ? dn - bs + 9 + sym_below("corrupt", 1u << 20) : 0;
            sym_assume(v != old);
            put(q + 2, v, 6);
            if(!v) sym_assume(old != 0);
            sym_reach("spill");
        }
    } else if(kind == 5 || kind == 6) {
        unsigned r = (unsigned)sym_choose("record", ni);
        uint64_t p = DAT_HDR;
        for(;;) {
            uint64_t z = be_at(d + p, 6);
            if(z) {
                if(id_of(d + p + 6) == r) break;
                p += 6 + g_ks + z;
            } else
                p += 8 + be_at(d + p + 6, 2);
        }
        if(kind == 5) {
            uint64_t old = be_at(d + p, 6), v = sym_bits("corrupt", 32);
            sym_assume(v != old);
            put(d + p, v, 6);
            sym_reach("record size");
        } else {
            unsigned o = (unsigned)sym_choose("other", g_nk);
            sym_assume(hash48(o) != hash48(r));
            if(o == r) sym_kill();
            key_of(o, d + p + 6);
            sym_reach("record key");
        }
    } else if(kind == 7) {
        uint64_t cut = sym_below("cut", dn - DAT_HDR);
        bool edge = false;
        uint64_t nd = DAT_HDR + cut;
        vf_setsize(vf_find(DP), nd, dn);
        (void)edge;
        sym_reach("truncated");
    } else {
        unsigned w = (unsigned)sym_choose("header", 3);
        uint64_t v = sym_u64("corrupt");
        if(w == 0) {
            sym_assume(v != 42);
            put(d + 10, v, 8);
        } else if(w == 1) {
            sym_assume(v != 7);
            put(d + 18, v, 8);
        } else {
            sym_assume((v & 0xffff) != g_ks);
            put(d + 26, v & 0xffff, 2);
        }
        sym_reach("header");
    }
    error_code ec = run_verify(b);
    sym_check((bool)ec, "verify reports a broken database");
    sym_observe(ec.value());
    sym_reach("bad");
}
// known finding: the documentation of verify promises that values with duplicate keys are detected
extern "C" void h_verify_dup() {
    ni = 2;
    bs = 104;
    setup_keys(2, 2);
    create_db(bs, 0.9f);
    {
        error_code ec;
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        for(unsigned i = 0; i < 2; i++) do_insert(db, i);
        db.close(ec);
        sym_check(!ec, "close succeeds");
    }
    uint8_t* d = vf_data(DP);
    uint64_t p = DAT_HDR;
    uint64_t z = be_at(d + p, 6);
    d[p + 6 + g_ks + z + 6] = d[p + 6];
    error_code ec = run_verify(buf_choice());
    sym_observe(ec.value());
    sym_check((bool)ec, "verify reports values with duplicate keys");
    sym_reach("dup");
}
