prop='C27'; needs='a damaged bucket whose count is exactly one above the capacity'; breaks='such a bucket is accepted and its last entry is read past the end of the buffer'
edits=[('detail/bucket.hpp','''    if(size_ > cap)
    {''','''    if(size_ > cap + 1)
    {''')]
demo=r'''
#include "memfs.h"
int main() {
    std::remove("d"); std::remove("k"); std::remove("l"); nudb::error_code ec; nudb::create<nudb::xxhasher>("d", "k", "l", 1, 5, 4, 104, 0.5f, ec); NEED(!ec); // capacity 5
    { FILE* f = std::fopen("k", "r+b"); NEED(f); std::fseek(f, 104 + 1, SEEK_SET); std::fputc(6, f); std::fclose(f); }
    nudb::context ctx; nudb::store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    db.fetch("abcd", [](void const*, std::size_t) {}, ec); NEED(ec == nudb::error::invalid_bucket_size); ec = {};
    db.insert("abcd", "v", 1, ec); NEED(ec == nudb::error::invalid_bucket_size); ec = {};
}
'''
