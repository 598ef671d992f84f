prop='C18'; needs='an item whose key and value together take 64 KB or more'; breaks='visit takes the size of a record modulo 65536 when it moves on to the next one'
edits=[('impl/visit.ipp','''            is = r.prepare(
                dh.key_size +           // Key
                size, ec);              // Data
            if(ec)
                return;''','''            is = r.prepare(
                static_cast<std::uint16_t>(
                    dh.key_size +       // Key
                    size), ec);         // Data
            if(ec)
                return;''')]
demo=r'''
#include "memfs.h"
int main() {
    std::remove("d"); std::remove("k"); std::remove("l"); nudb::error_code ec; nudb::create<nudb::xxhasher>("d", "k", "l", 1, 5, 4, 4096, 0.5f, ec); NEED(!ec);
    { nudb::context ctx; nudb::store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); unsigned n[] = {3, 70000, 9}; for(unsigned i = 0; i < 3; ++i) { unsigned char k[4] = {1, 2, 3, (unsigned char)i}; std::string v(n[i], char('a' + i)); db.insert(k, v.data(), v.size(), ec); NEED(!ec); } db.close(ec); NEED(!ec); }
    unsigned seen = 0; nudb::visit("d", [&](void const* k, std::size_t, void const* p, std::size_t n, nudb::error_code&) { unsigned i = ((unsigned char const*)k)[3]; NEED(i < 3); NEED(n == (i == 0 ? 3u : i == 1 ? 70000u : 9u)); NEED(((char const*)p)[n - 1] == char('a' + i)); ++seen; }, nudb::no_progress{}, ec); NEED(!ec); NEED(seen == 3);
}
'''
