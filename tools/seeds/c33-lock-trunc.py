prop='C33'; needs='a fetch or insert while the commit is truncating or syncing its log file'; breaks='the commit holds the lock of the store during its last file operations, so that readers wait for the disk'
edits=[('impl/basic_store.ipp','''    s_->kf.sync(ec);
    if(ec)
        return;
    s_->lf.trunc(0, ec);''','''    s_->kf.sync(ec);
    if(ec)
        return;
    m.lock();
    s_->lf.trunc(0, ec);'''),('impl/basic_store.ipp','''    // might get blocked longer due to the extra I/O.
    m.lock();
    s_->c1.clear();''','''    // might get blocked longer due to the extra I/O.
    s_->c1.clear();''')]
demo=r'''
#include "memfs.h"
#include <thread>
#include <atomic>
#include <chrono>
#include <functional>
#include <unistd.h>
// At its n-th operation during the commit, another thread fetches and inserts; it must be done while the operation waits for it.
static std::function<void()> meanwhile; static long ops, at; static std::thread::id committer;
static void op() {
    if(!meanwhile || std::this_thread::get_id() != committer || ops++ != at) return;
    std::atomic<bool> done{false}; std::thread t([&] { meanwhile(); done = true; });
    for(int i = 0; i < 1000 && !done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    if(!done) { std::printf("FAILED: blocked at operation %ld\n", at); std::fflush(stdout); _exit(1); }
    t.join();
}
struct waiting_file : mem_file {
    void read(std::uint64_t o, void* b, std::size_t n, nudb::error_code& ec) { op(); mem_file::read(o, b, n, ec); }
    void write(std::uint64_t o, void const* b, std::size_t n, nudb::error_code& ec) { op(); mem_file::write(o, b, n, ec); }
    void sync(nudb::error_code& ec) { op(); mem_file::sync(ec); }
    void trunc(std::uint64_t l, nudb::error_code& ec) { op(); mem_file::trunc(l, ec); }
};
int main() {
    for(at = 0; at < 60; ++at) {
        fs().reset(); ops = 0; meanwhile = nullptr; mkdb(); nudb::error_code ec; nudb::context ctx; nudb::basic_store<raw_hash, waiting_file> db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
        for(unsigned i = 0; i < 6; ++i) NEED(!put(db, key12(std::uint64_t(i) << 16, i), i));
        ctx.flush();
        for(unsigned i = 6; i < 12; ++i) NEED(!put(db, key12(std::uint64_t(i) << 16, i), i));
        committer = std::this_thread::get_id();
        meanwhile = [&] { for(unsigned i = 0; i < 12; ++i) NEED(get(db, key12(std::uint64_t(i) << 16, i), i) == 1); NEED(!put(db, key12(std::uint64_t(77) << 16, 77), 77)); };
        ctx.flush(); meanwhile = nullptr;
        db.close(ec); NEED(!ec); if(ops <= at) break;
    }
}
'''
