prop='C17'; needs='a damaged size field in a bucket entry, checked with little memory (the slow algorithm)'; breaks='the slow algorithm no longer compares the size in the bucket with the size in the data file'
edits=[('impl/verify.ipp','''                    if(size != e.size)
                    {
                        ec = error::size_mismatch;
                        return;
                    }
                    auto const h''','''                    if(size == 0)
                    {
                        ec = error::size_mismatch;
                        return;
                    }
                    auto const h''')]
demo=r'''
#include "memfs.h"
int main() {
    std::remove("d"); std::remove("k"); std::remove("l"); nudb::error_code ec; nudb::create<nudb::xxhasher>("d", "k", "l", 1, 5, 4, 104, 0.5f, ec); NEED(!ec);
    { nudb::context ctx; nudb::store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); for(unsigned i = 0; i < 3; ++i) { unsigned char k[4] = {1, 2, 3, (unsigned char)i}; db.insert(k, "abcdef", 6, ec); NEED(!ec); } db.close(ec); NEED(!ec); }
    nudb::verify_info info; nudb::verify<nudb::xxhasher>(info, "d", "k", 0, nudb::no_progress{}, ec); NEED(!ec); NEED(info.algorithm == 0); NEED(info.value_count == 3);
    { FILE* f = std::fopen("k", "r+b"); NEED(f); std::fseek(f, 104 + 8 + 6 + 5, SEEK_SET); std::fputc(7, f); std::fclose(f); } // size of the first entry: 6 -> 7
    for(std::size_t b : {std::size_t(0), std::size_t(1 << 20)}) { ec = {}; nudb::verify<nudb::xxhasher>(info, "d", "k", b, nudb::no_progress{}, ec); NEED(ec == nudb::error::size_mismatch); }
}
'''
