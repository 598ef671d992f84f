prop='C08'; needs='a log file read by anything other than this build'; breaks='log header: uid and appnum are written and read in swapped order'
edits=[('detail/format.hpp','''    read(is, lh.type, sizeof(lh.type));
    read<std::uint16_t>(is, lh.version);
    read<std::uint64_t>(is, lh.uid);
    read<std::uint64_t>(is, lh.appnum);
    read<std::uint16_t>(is, lh.key_size);
    read<std::uint64_t>(is, lh.salt);''','''    read(is, lh.type, sizeof(lh.type));
    read<std::uint16_t>(is, lh.version);
    read<std::uint64_t>(is, lh.appnum);
    read<std::uint64_t>(is, lh.uid);
    read<std::uint16_t>(is, lh.key_size);
    read<std::uint64_t>(is, lh.salt);'''),('detail/format.hpp','''    write(os, "nudb.log", 8);
    write<std::uint16_t>(os, lh.version);
    write<std::uint64_t>(os, lh.uid);
    write<std::uint64_t>(os, lh.appnum);''','''    write(os, "nudb.log", 8);
    write<std::uint16_t>(os, lh.version);
    write<std::uint64_t>(os, lh.appnum);
    write<std::uint64_t>(os, lh.uid);''')]
demo=r'''
#include "memfs.h"
static unsigned long long be(bytes const& f, std::size_t o, int n) { unsigned long long v = 0; while(n--) v = v << 8 | f.at(o++); return v; }
int main() {
    fs().reset(); nudb::error_code ec; nudb::create<raw_hash, mem_file>("d", "k", "l", 0x1122334455667788ull, 0x99aabbccddeeff00ull, 5, 12, 104, 0.5f, ec); NEED(!ec);
    nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); NEED(!put(db, key12(7, 7), 7));
    for(long at = 0;; ++at) { NEED(at < 40); fs().snapped = false; fs().snap_at = fs().ops + at; NEED(!put(db, key12(std::uint64_t(100 + at) << 16, 100 + at), 100 + at)); ctx.flush(); if(fs().snapped && fs().snap["l"].first.size() >= 62) break; }
    bytes l = fs().snap["l"].first; NEED(!std::memcmp(l.data(), "nudb.log", 8)); NEED(be(l, 8, 2) == 2);
    NEED(be(l, 10, 8) == 0x99aabbccddeeff00ull); NEED(be(l, 18, 8) == 0x1122334455667788ull); NEED(be(l, 26, 2) == 12); NEED(be(l, 28, 8) == 5); NEED(be(l, 44, 2) == 104);
    db.close(ec); NEED(!ec);
}
'''
