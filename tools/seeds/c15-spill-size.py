prop='C15'; needs='a data file with spill records, rekeyed with another block size'; breaks='old spill records are skipped by the size spill records have under the new block size'
edits=[('impl/rekey.ipp','''                read<std::uint16_t>(is, size);  // Size
                r.prepare(size, ec); // skip''','''                read<std::uint16_t>(is, size);  // Size
                size = bucket_size(
                    bucket_capacity(kh.block_size));
                r.prepare(size, ec); // skip''')]
demo=r'''
#include "memfs.h"
int main() {
    auto h = [](unsigned i) { return std::uint64_t(i % 2) << 16; };
    for(unsigned bs : {104u, 122u, 300u}) {
        fs().reset(); mkdb(); nudb::error_code ec;
        { nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); for(unsigned i = 0; i < 24; ++i) { NEED(!put(db, key12(h(i), i), i)); if(i == 16) ctx.flush(); } db.close(ec); NEED(!ec); }
        fs().files.erase("k"); nudb::rekey<raw_hash, mem_file>("d", "k", "l", bs, 0.5f, 24, 100000, ec, nudb::no_progress{}); NEED(!ec);
        nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); for(unsigned i = 0; i < 24; ++i) NEED(get(db, key12(h(i), i), i) == 1); db.close(ec); NEED(!ec);
    }
}
'''
