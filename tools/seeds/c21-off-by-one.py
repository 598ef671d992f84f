prop='C21'; needs='a fence with exactly one earlier reader that was not alone when another of its generation left'; breaks='the fence finishes while one earlier reader is still inside'
edits=[('detail/gentex.hpp','''        --prev_;
        if(prev_ == 0)
            cond_.notify_all();''','''        if(--prev_ < 2)
            cond_.notify_all();'''),('detail/gentex.hpp','''    while(prev_ > 0)
        cond_.wait(l);''','''    if(prev_ > 0)
        cond_.wait(l);''')]
demo=r'''
#include <nudb/nudb.hpp>
#include "memfs.h"
#include <thread>
#include <atomic>
#include <chrono>
// two readers are inside when a commit wants to overwrite the key file; one leaves, the other stays
static std::atomic<int> inside{0}; static std::atomic<bool> armed{false}, go1{false}, go2{false}, key_written{false};
static thread_local int me = 0;
struct slow_file : mem_file {
    bool key = false;
    void open(nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec) { key = p == "k"; mem_file::open(m, p, ec); }
    void read(std::uint64_t o, void* b, std::size_t n, nudb::error_code& ec) {
        if(key && armed && me) { ++inside; while(!(me == 1 ? go1 : go2)) std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
        mem_file::read(o, b, n, ec); }
    void write(std::uint64_t o, void const* b, std::size_t n, nudb::error_code& ec) { if(key) key_written = true; mem_file::write(o, b, n, ec); }
};
int main() {
    using store = nudb::basic_store<raw_hash, slow_file>; fs().reset(); mkdb(); nudb::error_code ec; nudb::context ctx; store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    for(unsigned i = 0; i < 2; ++i) NEED(!put(db, key12(std::uint64_t(i) << 16, i), i));
    ctx.flush(); NEED(!put(db, key12(5ull << 16, 5), 5)); key_written = false; armed = true; int r[2] = {-2, -2};
    std::thread a([&] { me = 1; r[0] = get(db, key12(0, 0), 0); }), b([&] { me = 2; r[1] = get(db, key12(1ull << 16, 1), 1); });
    while(inside < 2) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    std::thread f([&] { ctx.flush(); });
    std::this_thread::sleep_for(std::chrono::milliseconds(300)); bool early0 = key_written; go1 = true; a.join();
    std::this_thread::sleep_for(std::chrono::milliseconds(300)); bool early1 = key_written; go2 = true; b.join(); f.join(); armed = false;
    NEED(!early0); NEED(!early1); NEED(r[0] == 1 && r[1] == 1); NEED(key_written); db.close(ec); NEED(!ec);
}
'''
