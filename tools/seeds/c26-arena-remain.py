prop='C26'; needs='allocations that use up an arena block to within less than eight bytes: the block size itself is not a multiple of eight'; breaks='the last allocation in a block of the arena runs past its end, into foreign memory'
edits=[('detail/arena.hpp','''    if(n > capacity_ - used_)
        return nullptr;''','''    if(n > 8 * ((capacity_ - used_ + 7) / 8))
        return nullptr;''')]
demo=r'''
#include <nudb/nudb.hpp>
#include <nudb/detail/arena.hpp>
#include <nudb/detail/pool.hpp>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <vector>
#define NEED(c) do { if(!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while(0)
static std::vector<std::pair<char*, std::size_t>> blocks;
void* operator new[](std::size_t n) { char* p = (char*)std::malloc(n + 64); blocks.push_back({p, n}); return p; }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
int main() {
    for(std::size_t hint = 1; hint < 80; ++hint) for(std::size_t n = 1; n < 40; ++n) {
        blocks.clear(); nudb::detail::arena a; a.hint(hint);
        for(int i = 0; i < 8; ++i) { auto p = (char*)a.alloc(n); bool in = false; for(auto& b : blocks) if(p >= b.first && p + n <= b.first + b.second) in = true; NEED(in); }
    }
}
'''
