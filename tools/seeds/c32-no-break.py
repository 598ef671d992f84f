prop='C32'; needs='a lookup of a duplicate in a bucket that holds entries with larger hashes'; breaks='insert reads the data record of every entry behind the place of the key instead of only those with the same hash'
edits=[('impl/basic_store.ipp','''            auto const item = b[i];
            if(item.hash != h)
                break;
            // Data Record
            s_->df.read(item.offset +
                field<uint48_t>::size,      // Size''','''            auto const item = b[i];
            // Data Record
            s_->df.read(item.offset +
                field<uint48_t>::size,      // Size''')]
demo=r'''
#include "memfs.h"
static unsigned reads; static bool counting;
struct counting_file : mem_file {
    void read(std::uint64_t o, void* b, std::size_t n, nudb::error_code& ec) { if(counting) ++reads; mem_file::read(o, b, n, ec); }
};
int main() {
    mkdb(0.9f, 1024); nudb::error_code ec; nudb::context ctx; nudb::basic_store<raw_hash, counting_file> db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    for(unsigned i = 0; i < 40; ++i) NEED(!put(db, key12((2 * std::uint64_t(i) + 1) << 32, i), i));
    ctx.flush();
    for(unsigned i = 0; i < 40; ++i) { reads = 0; counting = true; NEED(put(db, key12((2 * std::uint64_t(i) + 1) << 32, i), i) == nudb::error::key_exists); counting = false; NEED(reads == 2); }
    for(unsigned i = 0; i < 40; ++i) { reads = 0; counting = true; NEED(!put(db, key12((2 * std::uint64_t(i)) << 32, 100 + i), 100 + i)); counting = false; NEED(reads == 1); }
    db.close(ec); NEED(!ec);
}
'''
