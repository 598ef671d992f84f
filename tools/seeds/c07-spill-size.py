prop='C07'; needs='a block size above 4096 and more equal hashes than a bucket holds'; breaks='the size field of a spill record is capped at 4096, so the data file can no longer be walked record by record'
edits=[('detail/bucket.hpp','''        write<std::uint16_t>(
            os, b.actual_size());   // Size
        auto const spill''','''        write<std::uint16_t>(os,        // Size
            b.actual_size() < 4096 ? b.actual_size() : 4096);
        auto const spill''')]
demo=r'''
#include "memfs.h"
int main() {
    std::remove("d"); std::remove("k"); std::remove("l"); nudb::error_code ec; using st = nudb::basic_store<raw_hash, nudb::native_file>;
    nudb::create<raw_hash>("d", "k", "l", 1, 5, 12, 8192, 0.9f, ec); NEED(!ec); unsigned n = 700;
    { nudb::context ctx; st db(ctx); db.open("d", "k", "l", ec); NEED(!ec); for(unsigned i = 0; i < n; ++i) { NEED(!put(db, key12(0x100000, i), i)); } db.close(ec); NEED(!ec); }
    unsigned seen = 0; nudb::visit("d", [&](void const*, std::size_t, void const*, std::size_t, nudb::error_code&) { ++seen; }, nudb::no_progress{}, ec); NEED(!ec); NEED(seen == n);
    nudb::verify_info info; nudb::verify<raw_hash>(info, "d", "k", 1 << 24, nudb::no_progress{}, ec); NEED(!ec); NEED(info.value_count == n); NEED(info.spill_count > 0);
}
'''
