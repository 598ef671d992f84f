prop='C30'; needs='a rekey whose buffer does not divide the number of buckets'; breaks='the total amount of work is computed for one pass too few, so the progress runs past it'
edits=[('impl/rekey.ipp','''       (kh.buckets + chunkSize - 1) / chunkSize;
    auto const nwork''','''       kh.buckets > chunkSize ?
           kh.buckets / chunkSize : 1;
    auto const nwork''')]
demo=r'''
#include "memfs.h"
int main() {
    std::remove("d"); std::remove("k"); std::remove("l"); nudb::error_code ec; nudb::create<nudb::xxhasher>("d", "k", "l", 1, 5, 4, 104, 0.5f, ec); NEED(!ec); unsigned n = 40;
    { nudb::context ctx; nudb::store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); for(unsigned i = 0; i < n; ++i) { unsigned char k[4] = {1, 2, 3, (unsigned char)i}; db.insert(k, "abcdef", 6, ec); NEED(!ec); } db.close(ec); NEED(!ec); }
    for(unsigned c = 1; c < 12; ++c) { std::remove("k"); std::uint64_t last = 0;
        nudb::rekey<nudb::xxhasher, nudb::native_file>("d", "k", "l", 104, 0.5f, n, c * 104, ec, [&](std::uint64_t a, std::uint64_t t) { NEED(a <= t); NEED(a >= last); last = a; }); NEED(!ec); }
}
'''
