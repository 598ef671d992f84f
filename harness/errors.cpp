// Error codes: C29.
#include "store.h"
#include <string>
using E = nudb::error;
struct Ent {
    E e;
    const char* word;
};
static const Ent all[] = {{E::success, ""},
                          {E::key_not_found, ""},
                          {E::key_exists, ""},
                          {E::short_read, ""},
                          {E::log_file_exists, ""},
                          {E::no_key_file, ""},
                          {E::too_many_buckets, ""},
                          {E::not_data_file, ""},
                          {E::not_key_file, ""},
                          {E::not_log_file, ""},
                          {E::different_version, ""},
                          {E::invalid_key_size, ""},
                          {E::invalid_block_size, ""},
                          {E::short_key_file, ""},
                          {E::short_bucket, ""},
                          {E::short_spill, ""},
                          {E::short_data_record, ""},
                          {E::short_value, ""},
                          {E::hash_mismatch, ""},
                          {E::invalid_load_factor, ""},
                          {E::invalid_capacity, ""},
                          {E::invalid_bucket_count, ""},
                          {E::invalid_bucket_size, ""},
                          {E::incomplete_data_file_header, ""},
                          {E::incomplete_key_file_header, ""},
                          {E::invalid_log_record, ""},
                          {E::invalid_log_spill, ""},
                          {E::invalid_log_offset, ""},
                          {E::invalid_log_index, ""},
                          {E::invalid_spill_size, ""},
                          {E::uid_mismatch, ""},
                          {E::appnum_mismatch, ""},
                          {E::key_size_mismatch, ""},
                          {E::salt_mismatch, ""},
                          {E::pepper_mismatch, ""},
                          {E::block_size_mismatch, ""},
                          {E::orphaned_value, ""},
                          {E::missing_value, ""},
                          {E::size_mismatch, ""},
                          {E::duplicate_value, ""}};
static const unsigned N = sizeof all / sizeof all[0];
extern "C" void h_errors() {
    unsigned i = (unsigned)sym_choose("i", N), j = (unsigned)sym_choose("j", N);
    error_code a = all[i].e, b = nudb::make_error_code(all[j].e);
    sym_check((a == b) == (i == j), "codes are distinct");
    sym_check((a == all[j].e) == (i == j), "a code compares equal to its own enumerator only");
    sym_check((a != b) == (i != j), "inequality agrees");
    sym_check((bool)a == (i != 0), "every code but success is an error");
    sym_check(&a.category() == &nudb::nudb_category(), "category");
    sym_check(!strcmp(a.category().name(), "nudb"), "category name");
    boost::system::error_condition c = a.default_error_condition();
    sym_check(&c.category() == &nudb::nudb_category() && c.value() == (int)all[i].e,
              "a code maps to its own condition");
    sym_check((b == c) == (i == j), "a code matches its own condition only");
    std::string m = a.message(), n = b.message();
    sym_check(!m.empty(), "every code has a message");
    sym_check((m == n) == (i == j), "messages are distinct");
    sym_check(error_code() != a || i == 0, "a default code is no error");
    sym_observe(m.size());
    sym_reach("pair");
}
// any value, this category and others
extern "C" void h_equiv() {
    int x = (int)sym_bits("x", 32), y = (int)sym_bits("y", 32);
    auto const& cat = nudb::nudb_category();
    auto const& g = boost::system::generic_category();
    auto const& s = boost::system::system_category();
    using boost::system::error_condition;
    error_code ex(x, cat), gx(x, g), sx(x, s);
    error_condition cy(y, cat), gy(y, g);
    sym_check(cat.equivalent(x, cy) == (x == y), "equivalent: same category");
    sym_check(!cat.equivalent(x, gy), "equivalent: another category's condition");
    sym_check(cat.equivalent(ex, y) == (x == y), "equivalent: own code");
    sym_check(!cat.equivalent(gx, y) && !cat.equivalent(sx, y), "equivalent: another category's code");
    sym_check((ex == cy) == (x == y), "code and condition compare by value and category");
    sym_check(!(ex == gy), "a library code is no generic condition");
    sym_check(!(gx == cy) && !(sx == cy), "a foreign code is no library condition");
    error_condition d = cat.default_error_condition(x);
    sym_check(d.value() == x && &d.category() == &cat, "default condition");
    sym_check((ex == error_code(y, cat)) == (x == y), "codes compare by value");
    sym_check(!(ex == gx), "codes of two categories differ");
    error_code z;
    sym_check(!z && z.value() == 0, "a default code means success");
    sym_check(!cat.message(x).empty(), "any value has a message");
    sym_reach("equiv");
}
// each situation reports the code documented for it
extern "C" void h_situations() {
    setup_keys(2, 0);
    create_db(104, 0.5f);
    error_code ec;
    unsigned w = (unsigned)sym_choose("what", 9);
    {
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(!ec, "open");
        error_code e = do_insert(db, 0);
        sym_check(!e, "insert");
        if(w == 0) {
            sym_check(do_insert(db, 0) == E::key_exists, "second insert: key_exists");
            ctx.flush();
            sym_check(do_insert(db, 0) == E::key_exists, "second insert after a commit: key_exists");
        }
        if(w == 1) {
            do_fetch(db, 1);
            sym_check(g_lastec == E::key_not_found, "absent key: key_not_found");
            ctx.flush();
            do_fetch(db, 1);
            sym_check(g_lastec == E::key_not_found, "absent key after a commit: key_not_found");
        }
        db.close(ec);
        sym_check(!ec, "close");
    }
    if(w == 2) {
        int i = vf_new(LP);
        vf_setsize(i, 0, 0);
        nudb::rekey<SymHasher, nudb::posix_file>(DP, KP, LP, 104, 0.5f, 1, 4096, ec, nudb::no_progress{});
        sym_check(ec == E::log_file_exists, "rekey with a log: log_file_exists");
    }
    if(w == 3) {
        vf[vf_find(KP)].linked = false;
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(ec == boost::system::errc::no_such_file_or_directory, "missing key file");
    }
    if(w == 4) {
        nudb::create<SymHasher, nudb::posix_file>(DP, KP, LP, 1, 2, 3, 4, 104, 0.5f, ec);
        sym_check(ec == boost::system::errc::file_exists, "create over existing files: file_exists");
    }
    if(w == 5) {
        vf_setsize(vf_find(DP), 50, 50);
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(ec == E::short_read, "short data file header: short_read");
    }
    if(w == 6) {
        vf_data(DP)[0] ^= 1;
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(ec == E::not_data_file, "not_data_file");
    }
    if(w == 7) {
        vf_data(KP)[7] ^= 1;
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(ec == E::not_key_file, "not_key_file");
    }
    if(w == 8) {
        uint64_t n = sym_below("keylen", 105);
        vf_setsize(vf_find(KP), n, 208);
        nudb::context ctx;
        store_t db(ctx);
        db.open(DP, KP, LP, ec);
        sym_check(ec == E::no_key_file, "a key file without a complete header: no_key_file");
    }
    sym_observe(ec.value());
    sym_reach("situation");
}
