prop='C20'; needs='a fetch that has chosen the key file but not yet read it while a commit overwrites that bucket and moves items by a split'; breaks='the commit no longer waits for readers of the old buckets before it overwrites the key file'
edits=[('impl/basic_store.ipp','''        s_->lf.sync(ec);
        if(ec)
            return;
    }
    g_.finish();
    // Write''','''        s_->lf.sync(ec);
        if(ec)
            return;
    }
    // Write''')]
demo=r'''
#include "memfs.h"
#include <thread>
#include <atomic>
#include <chrono>
// A File that lets a flush run on another thread exactly when the fetch is about to read the key file.
static std::atomic<bool> armed{false}; static nudb::context* g_ctx; static std::thread flusher; static std::thread::id reader;
struct slow_file : mem_file {
    bool key = false; bytes tag;
    void open(nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec) { key = p == "k"; mem_file::open(m, p, ec); }
    void read(std::uint64_t o, void* b, std::size_t n, nudb::error_code& ec) {
        if(key && armed.load() && std::this_thread::get_id() == reader) { armed = false; flusher = std::thread([] { g_ctx->flush(); }); std::this_thread::sleep_for(std::chrono::milliseconds(400)); }
        mem_file::read(o, b, n, ec); }
};
int main() {
    using store = nudb::basic_store<raw_hash, slow_file>;
    for(unsigned target = 0; target < 4; ++target) {
        fs().reset(); mkdb(); nudb::error_code ec; nudb::context ctx; g_ctx = &ctx; store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
        for(unsigned i = 0; i < 4; ++i) NEED(!put(db, key12(std::uint64_t(i) << 16, i), i));
        ctx.flush();
        for(unsigned i = 4; i < 14; ++i) NEED(!put(db, key12(std::uint64_t(i) << 16, i), i));
        reader = std::this_thread::get_id(); armed = true; int r = get(db, key12(std::uint64_t(target) << 16, target), target); armed = false; if(flusher.joinable()) flusher.join(); NEED(r == 1);
        db.close(ec); NEED(!ec);
    }
}
'''
