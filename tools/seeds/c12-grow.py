prop='C12'; needs='a record larger than the read buffer that starts in the middle of the buffer'; breaks='when the read buffer grows, the bytes kept are taken from its start'
edits=[('detail/bulkio.hpp','''            std::memcpy(buf.get(),
                buf_.get() + used_, avail_);
            buf_ = std::move(buf);''','''            std::memcpy(buf.get(),
                buf_.get(), avail_);
            buf_ = std::move(buf);''')]
demo=r'''
#include "memfs.h"
#include <cstdio>
int main() {
    // through the public API: visit a data file with a value larger than the 4 MB read buffer
    std::remove("d"); std::remove("k"); std::remove("l"); nudb::error_code ec;
    nudb::create<nudb::xxhasher>("d", "k", "l", 1, 5, 4, 4096, 0.5f, ec); NEED(!ec);
    std::vector<bytes> v(3); v[0] = bytes(100, 1); v[1] = bytes(6 << 20, 2); v[2] = bytes(50, 3);
    { nudb::context ctx; nudb::store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); for(unsigned i = 0; i < 3; ++i) { unsigned char k[4] = {9, 9, 9, (unsigned char)i}; db.insert(k, v[i].data(), v[i].size(), ec); NEED(!ec); } db.close(ec); NEED(!ec); }
    unsigned n = 0;
    nudb::visit("d", [&](void const* k, std::size_t ks, void const* p, std::size_t sz, nudb::error_code&) { auto q = (unsigned char const*)k; NEED(ks == 4 && q[0] == 9 && q[1] == 9 && q[2] == 9 && q[3] == n); NEED(sz == v[n].size() && !std::memcmp(p, v[n].data(), sz)); ++n; }, nudb::no_progress{}, ec);
    NEED(!ec); NEED(n == 3);
}
'''
