// Visiting data files: C18.
#include "store.h"
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static const unsigned MAXREC = 8;
struct Rec {
    bool spill;
    uint64_t at, size, end;
};
static Rec rec[MAXREC];
static unsigned nrec, ksz;
static uint8_t* img;
static unsigned calls;
static uint64_t stop_at;
static bool stopped;
static unsigned order[MAXREC * 4];
static unsigned norder;
static void put_be(uint8_t* p, uint64_t v, unsigned n) {
    for(unsigned i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * (n - 1 - i)));
}
// the callback may report any error, also one the library itself uses
static unsigned stop_cat;
static int stop_value;
static error_code stop_code() {
    return error_code(stop_value, stop_cat ? boost::system::generic_category()
                                           : make_error_code(nudb::error::short_read).category());
}
// the callback receives the record the file order says comes next
static void on_item(void const* k, std::size_t kn, void const* v, std::size_t vn, error_code& ec) {
    sym_check(!stopped, "no call after the callback reported an error");
    sym_check(calls < norder, "no call beyond the items of the file");
    Rec& r = rec[order[calls]];
    sym_check(kn == ksz, "key size");
    sym_check(vn == r.size, "value size");
    unsigned d = 0;
    const uint8_t *a = (const uint8_t*)k, *b = (const uint8_t*)v;
    for(unsigned i = 0; i < ksz; i++) d |= a[i] ^ img[r.at + 6 + i];
    for(unsigned i = 0; i < r.size; i++) d |= b[i] ^ img[r.at + 6 + ksz + i];
    sym_check(d == 0, "exact key and value, in file order");
    if(calls++ == stop_at) {
        stopped = true;
        ec = stop_code();
    }
}
struct Prog {
    void operator()(std::uint64_t, std::uint64_t) const {} // C30
};
// any sequence of records, file cut anywhere
extern "C" void h_visit_file() {
    ksz = P("ks", 2);
    unsigned nr = P("nr", 3);
    static const unsigned dsz[] = {1, 3, 400, 1100}, ssz[] = {8, 26, 0, 1030};
    uint8_t hdr[DAT_HDR];
    memset(hdr, 0, sizeof hdr);
    memcpy(hdr, "nudb.dat", 8);
    put_be(hdr + 8, 2, 2);
    put_be(hdr + 10, sym_u64("uid"), 8);
    put_be(hdr + 18, sym_u64("appnum"), 8);
    put_be(hdr + 26, ksz, 2);
    int ino = vf_new(DP);
    memcpy(vf_d[ino], hdr, DAT_HDR);
    img = vf_d[ino];
    uint64_t p = DAT_HDR;
    nrec = (unsigned)sym_choose("records", nr + 1);
    unsigned nd = 0;
    for(unsigned i = 0; i < nrec; i++) {
        Rec& r = rec[i];
        r.spill = sym_choose("spill", 2);
        r.at = p;
        r.size = r.spill ? ssz[sym_choose("size", P("nss", 2))] : dsz[sym_choose("size", P("nds", 3))];
        uint64_t body;
        if(r.spill) {
            put_be(img + p, 0, 6);
            put_be(img + p + 6, r.size, 2);
            p += 8;
            body = r.size;
        } else {
            put_be(img + p, r.size, 6);
            p += 6;
            body = ksz + r.size;
            nd++;
        }
        for(uint64_t j = 0; j < body; j++) img[p + j] = (uint8_t)(i * 37 + j * 11 + 1);
        uint64_t q = body < 6 ? body : 6;
        sym_bytes(img + p, q, "bytes");
        if(body > 12) sym_bytes(img + p + body - 6, 6, "bytes");
        p += body;
        r.end = p;
    }
    sym_check(p < VF_CAP, "harness bound: file size");
    uint64_t cut = p;
    if(P("cut", 1) && sym_choose("whole", 2) == 0) {
        cut = sym_u64("cut");
        sym_assume(cut >= DAT_HDR && cut < p);
    }
    vf_setsize(ino, cut, p);
    norder = 0;
    for(unsigned i = 0; i < nrec; i++)
        if(!rec[i].spill) order[norder++] = i;
    stop_at = sym_below("stop", nd + 2);
    stop_cat = (unsigned)sym_choose("category", 2);
    stop_value = 1 + (int)sym_bits("code", 7);
    calls = 0;
    stopped = false;
    error_code ec;
    nudb::visit(DP, on_item, Prog{}, ec);
    unsigned full = 0, items = 0;
    bool clean = cut == DAT_HDR;
    for(unsigned i = 0; i < nrec; i++)
        if(cut >= rec[i].end) {
            full++;
            if(!rec[i].spill) items++;
            clean = cut == rec[i].end;
        }
    if(stopped) {
        sym_check(ec == stop_code(), "visit returns the error of the callback");
        sym_check(calls == stop_at + 1, "visit stops at the first error");
        sym_reach("stopped");
    } else {
        sym_check(calls == items, "every complete item is reported once");
        if(clean) {
            sym_check(!ec, "a file that ends after a record is visited without error");
            sym_reach("complete");
        } else {
            sym_check((bool)ec, "a file that ends inside a record is an error");
            sym_reach("truncated");
        }
    }
    sym_check(vf_openfds() == 0, "file closed");
    sym_observe(calls);
    sym_observe(ec.value());
    sym_reach("visit");
}
// files written by the library
extern "C" void h_visit_db() {
    unsigned ni = P("ni", 3), every = P("every", 0), bs = P("bs", 104);
    setup_keys(ni, P("hmode", 0), P("hb", 2));
    ksz = g_ks;
    create_db(bs, P("lf", 50) / 100.0f);
    error_code ec;
    {
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open");
        for(unsigned i = 0; i < ni; i++) {
            error_code e = do_insert(db, i);
            sym_check(!e, "insert succeeds");
            if(every && (i + 1) % every == 0) ctx.flush();
        }
        db.close(ec);
        sym_check(!ec, "close");
    }
    img = vf_data(DP);
    uint64_t n = sym_concretize(vf_size(DP)), p = DAT_HDR;
    bool seen[NK_MAX] = {};
    unsigned sp = 0;
    struct Cap {
        bool* seen;
        unsigned* cnt;
        unsigned* last;
        uint64_t* pos;
        uint64_t n;
    };
    static unsigned cnt;
    cnt = 0;
    static uint64_t pos;
    pos = p;
    static bool* sn;
    sn = seen;
    static uint64_t fn;
    fn = n;
    nudb::visit(
        DP,
        [](void const* k, std::size_t kn, void const* v, std::size_t vn,
           error_code&) { // find the next data record of the file
            while(pos + 6 <= fn && be_at(img + pos, 6) == 0) pos += 8 + be_at(img + pos + 6, 2);
            sym_check(pos + 6 <= fn, "no call beyond the items of the file");
            uint64_t sz = be_at(img + pos, 6);
            sym_check(kn == g_ks && vn == sz, "sizes");
            const uint8_t *a = (const uint8_t*)k, *b = (const uint8_t*)v;
            unsigned id = id_of(a);
            sym_check(id < g_nk && !sn[id], "each item once");
            sn[id] = true;
            uint8_t kk[KMAX];
            key_of(id, kk);
            sym_check(!memcmp(a, kk, g_ks), "exact key");
            sym_check(vn == g_vs[id], "value size");
            unsigned d = 0;
            for(unsigned i = 0; i < vn; i++) d |= b[i] ^ g_val[id][i];
            sym_check(d == 0, "exact value");
            sym_check(id_of(img + pos + 6) == id, "file order");
            pos += 6 + g_ks + sz;
            cnt++;
        },
        Prog{}, ec);
    sym_check(!ec, "visit succeeds");
    sym_check(cnt == ni, "every item is reported once");
    for(p = DAT_HDR; p < n;) {
        uint64_t sz = be_at(img + p, 6);
        if(sz)
            p += 6 + g_ks + sz;
        else {
            sp++;
            p += 8 + be_at(img + p + 6, 2);
        }
    }
    sym_observe(cnt);
    sym_reach("visit");
    if(sp) sym_reach("spills");
}
// a read that fails, or a file that is not a data file
extern "C" void h_visit_fail() {
    unsigned ni = P("ni", 2);
    setup_keys(ni, 2);
    create_db(104, 0.5f);
    error_code ec;
    {
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        for(unsigned i = 0; i < ni; i++) do_insert(db, i);
        db.close(ec);
    }
    static unsigned c;
    c = 0;
    auto cb = [](void const*, std::size_t, void const*, std::size_t, error_code&) { c++; };
    if(sym_choose("what", 2) == 0) {
        vf_fault_on = true;
        vf_fault_mode = 0;
        vf_fault_at = sym_below("fault_at", P("limit", 200));
        nudb::visit(DP, cb, Prog{}, ec);
        if(!vf_faults) {
            sym_reach("past the last operation");
            sym_kill();
        }
        sym_check((bool)ec, "an I/O failure is reported");
        sym_check(ec.category() == boost::system::system_category() && (ec.value() == EIO || ec.value() == EACCES),
                  "and says which");
        sym_reach("failed");
    } else {
        uint8_t* d = vf_data(DP);
        uint8_t old[DAT_HDR];
        memcpy(old, d, DAT_HDR);
        sym_bytes(d, 10, "type");
        sym_bytes(d + 26, 2, "key_size");
        nudb::visit(DP, cb, Prog{}, ec);
        bool same = !memcmp(d, old, 10) && be_at(d + 26, 2) > 0;
        if(!same) {
            sym_check((bool)ec && c == 0, "a file that is not a data file is refused");
            sym_reach("refused");
        }
    }
    sym_check(vf_openfds() == 0, "file closed");
}
