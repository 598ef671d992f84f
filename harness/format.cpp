// Fields, headers and index arithmetic: C08, C10. Internal: calls nudb::detail directly.
#include "sym.h"
#include <nudb/nudb.hpp>
#include <nudb/detail/format.hpp>
#include <nudb/detail/bucket.hpp>
#include <cstring>
using namespace nudb;
using namespace nudb::detail;
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static uint64_t be(const uint8_t* p, unsigned n) {
    uint64_t v = 0;
    for(unsigned i = 0; i < n; i++) v = v << 8 | p[i];
    return v;
}

template <class T> static void field_one(unsigned width, const char* name) {
    uint64_t v = sym_bits(name, width);
    uint8_t b[12];
    memset(b, 0xEE, sizeof b);
    sym_check(field<T>::size == width / 8, "documented width");
    ostream os(b, sizeof b);
    write<T>(os, v);
    sym_check(os.size() == width / 8, "a field occupies its width");
    sym_check(be(b, width / 8) == v, "a field is written big-endian");
    for(unsigned i = width / 8; i < sizeof b; i++) sym_check(b[i] == 0xEE, "nothing is written past the field");
    uint64_t r = 0;
    istream is(b, sizeof b);
    read<T>(is, r);
    sym_check(r == v, "a field is read back to its value");
    uint64_t q = 0;
    readp<T>(b, q);
    sym_check(q == v, "a field in memory is read back to its value");
    sym_check(is.data(1) == b + width / 8, "reading consumes the field");
}
extern "C" void h_fields() {
    field_one<uint8_t>(8, "u8");
    field_one<uint16_t>(16, "u16");
    field_one<uint24_t>(24, "u24");
    field_one<uint32_t>(32, "u32");
    field_one<uint48_t>(48, "u48");
    field_one<uint64_t>(64, "u64");
    uint8_t b[8]; // sizes of records and entries
    uint64_t v = sym_bits("size", 48);
    ostream os(b, 8);
    write<uint48_t>(os, v);
    {
        std::size_t u = 0;
        istream is(b, 6);
        error_code ec;
        read_size48(is, u, ec);
        sym_check(v >> 32 ? (bool)ec : !ec && u == v, "record sizes above 32 bits are reported");
    }
    sym_reach("fields");
}

extern "C" void h_headers() {
    uint64_t uid = sym_u64("uid"), app = sym_u64("appnum"), ver = sym_bits("version", 16),
             ks = sym_bits("key_size", 16), salt = sym_u64("salt"), pep = sym_u64("pepper"),
             lf = sym_bits("load_factor", 16), a = sym_u64("key_file_size"), b = sym_u64("dat_file_size");
    static const unsigned bss[6] = {104, 105, 128, 512, 4096, 0xffff};
    unsigned bs = bss[sym_choose("block_size", 6)];
    uint8_t buf[128];
    memset(buf, 0xEE, sizeof buf);
    {
        dat_file_header h;
        h.version = ver;
        h.uid = uid;
        h.appnum = app;
        h.key_size = ks;
        ostream os(buf, sizeof buf);
        write(os, h);
        sym_check(os.size() == 92 && dat_file_header::size == 92, "size of the data header");
        sym_check(!memcmp(buf, "nudb.dat", 8) && be(buf + 8, 2) == ver && be(buf + 10, 8) == uid &&
                      be(buf + 18, 8) == app && be(buf + 26, 2) == ks,
                  "layout of the data header");
        for(unsigned i = 28; i < 92; i++) sym_check(buf[i] == 0, "reserved bytes");
        dat_file_header r;
        istream is(buf, 92);
        read(is, r);
        sym_check(!memcmp(r.type, "nudb.dat", 8) && r.version == ver && r.uid == uid && r.appnum == app &&
                      r.key_size == ks,
                  "the data header is read back");
    }
    {
        key_file_header h;
        h.version = ver;
        h.uid = uid;
        h.appnum = app;
        h.key_size = ks;
        h.salt = salt;
        h.pepper = pep;
        h.block_size = bs;
        h.load_factor = lf;
        memset(buf, 0xEE, sizeof buf);
        ostream os(buf, sizeof buf);
        write(os, h);
        sym_check(os.size() == 104 && key_file_header::size == 104, "size of the key header");
        sym_check(!memcmp(buf, "nudb.key", 8) && be(buf + 8, 2) == ver && be(buf + 10, 8) == uid &&
                      be(buf + 18, 8) == app && be(buf + 26, 2) == ks && be(buf + 28, 8) == salt &&
                      be(buf + 36, 8) == pep && be(buf + 44, 2) == bs && be(buf + 46, 2) == lf,
                  "layout of the key header");
        for(unsigned i = 48; i < 104; i++) sym_check(buf[i] == 0, "reserved bytes");
        key_file_header r;
        uint64_t fs = sym_bits("file_size", P("fsbits", 40));
        istream is(buf, 104);
        read(is, fs, r);
        sym_check(!memcmp(r.type, "nudb.key", 8) && r.version == ver && r.uid == uid && r.appnum == app &&
                      r.key_size == ks && r.salt == salt && r.pepper == pep && r.block_size == bs &&
                      r.load_factor == lf,
                  "the key header is read back");
        sym_check(r.capacity == (bs - 8) / 18, "entries per bucket");
        // buckets = whole blocks after the first
        sym_check(fs < 2 * (uint64_t)bs
                      ? r.buckets == 0
                      : (r.buckets + 1) * bs <= fs && fs - (r.buckets + 1) * bs < bs && r.buckets >= 1,
                  "number of buckets");
    }
    {
        log_file_header h;
        h.version = ver;
        h.uid = uid;
        h.appnum = app;
        h.key_size = ks;
        h.salt = salt;
        h.pepper = pep;
        h.block_size = bs;
        h.key_file_size = a;
        h.dat_file_size = b;
        memset(buf, 0xEE, sizeof buf);
        ostream os(buf, sizeof buf);
        write(os, h);
        sym_check(os.size() == 62 && log_file_header::size == 62, "size of the log header");
        sym_check(!memcmp(buf, "nudb.log", 8) && be(buf + 8, 2) == ver && be(buf + 10, 8) == uid &&
                      be(buf + 18, 8) == app && be(buf + 26, 2) == ks && be(buf + 28, 8) == salt &&
                      be(buf + 36, 8) == pep && be(buf + 44, 2) == bs && be(buf + 46, 8) == a && be(buf + 54, 8) == b,
                  "layout of the log header");
        log_file_header r;
        istream is(buf, 62);
        read(is, r);
        sym_check(!memcmp(r.type, "nudb.log", 8) && r.version == ver && r.uid == uid && r.appnum == app &&
                      r.key_size == ks && r.salt == salt && r.pepper == pep && r.block_size == bs &&
                      r.key_file_size == a && r.dat_file_size == b,
                  "the log header is read back");
    }
    sym_reach("headers");
}

// every hash, every number of buckets up to 2^32
extern "C" void h_index() {
    uint64_t h = sym_u64("hash"), n = sym_u64("buckets");
    sym_assume(n >= 1);
    sym_assume(n <= 0x100000000ull);
    uint64_t m = ceil_pow2<nbuck_t>(n);
    sym_check(m != 0 && (m & (m - 1)) == 0 && m >= n && m / 2 < n,
              "modulus is the smallest power of two not below the number of buckets");
    m = sym_concretize(m);
    uint64_t i = bucket_index(h, n, m);
    sym_check(i < n, "the index is below the number of buckets");
    uint64_t low = h & (m - 1);
    sym_check(i == (low < n ? low : low - m / 2), "the bucket linear hashing assigns");
    if(n < 0x100000000ull) { // one more bucket, as a commit adds it
        uint64_t m2 = m;
        if(n == m) m2 *= 2;
        m2 = sym_concretize(m2);
        uint64_t split = n - m2 / 2, j = bucket_index(h, n + 1, m2);
        sym_check(split < n, "the split bucket exists");
        sym_check(j == i || (i == split && j == n), "a split moves hashes only from the split bucket to the new one");
        sym_check(m2 == ceil_pow2<nbuck_t>(n + 1), "a reopened table computes the same modulus");
        sym_reach("split");
    }
    sym_reach("index");
}
extern "C" void h_pow2() {
    uint64_t x = sym_u64("x");
    sym_assume(x <= 1ull << 63);
    sym_assume(x >= 1);
    uint64_t m = ceil_pow2<uint64_t>(x);
    sym_check(m != 0 && (m & (m - 1)) == 0 && m >= x && m / 2 < x, "the smallest power of two not below x");
    sym_reach("pow2");
}
