prop='C01'; needs='keys of more than 64 bytes that first differ after that, both waiting for the same commit'; breaks='buffered keys are compared by their first 64 bytes only, so the second of two such items is lost'
edits=[('detail/pool.hpp','''        return std::memcmp(
            lhs.key, rhs.key, key_size_) < 0;''','''        return std::memcmp(lhs.key, rhs.key,
            key_size_ < 64 ? key_size_ : 64) < 0;''')]
demo=r'''
#include "memfs.h"
int main() {
    std::remove("d"); std::remove("k"); std::remove("l"); nudb::error_code ec; nudb::create<nudb::xxhasher>("d", "k", "l", 1, 5, 100, 4096, 0.5f, ec); NEED(!ec);
    nudb::context ctx; nudb::store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); unsigned char k[100] = {};
    for(unsigned i = 0; i < 5; ++i) { k[99] = i; std::string v(3 + i, char('a' + i)); db.insert(k, v.data(), v.size(), ec); NEED(!ec); }
    for(unsigned r = 0; r < 2; ++r) {
        for(unsigned i = 0; i < 5; ++i) { k[99] = i; std::string v(3 + i, char('a' + i)), got; db.fetch(k, [&](void const* p, std::size_t n) { got.assign((char const*)p, n); }, ec); NEED(!ec); NEED(got == v); }
        db.close(ec); NEED(!ec); db.open("d", "k", "l", ec); NEED(!ec);
    }
    db.close(ec); NEED(!ec);
}
'''
