prop='C24'; needs='an input whose length leaves exactly four bytes after the 8-byte steps'; breaks='the last four bytes are hashed one by one'
edits=[('detail/xxhash.hpp','    if(p+4<=bEnd)','    if(p+4<bEnd)')]
demo=r'''
#include "memfs.h"
int main() {
    // XXH64 reference values
    auto h = [](char const* s, std::size_t n, std::uint64_t seed) { return std::uint64_t(nudb::xxhasher(seed)(s, n)); };
    NEED(h("", 0, 0) == 0xEF46DB3751D8E999ull); NEED(h("a", 1, 0) == 0xD24EC4F1A98C6E5Bull); NEED(h("abc", 3, 0) == 0x44BC2CF5AD770999ull);
    NEED(h("abcd", 4, 0) == 0xDE0327B0D25D92CCull);
}
'''
