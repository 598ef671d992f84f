prop='C22'; needs='close() called while the worker flushes that database and stop_all() has been called'; breaks='closing no longer waits for the flush in progress once the context is being stopped'
edits=[('impl/context.ipp','''                return store.state_ != state::intermediate;''','''                return store.state_ != state::intermediate || stop_;''')]
demo=r'''
#include "memfs.h"
#include <thread>
#include <atomic>
#include <chrono>
static std::atomic<bool> armed{false}, flushing{false}, done{false};
struct slow_file : mem_file {
    void sync(nudb::error_code& ec) { if(armed.exchange(false)) { flushing = true; std::this_thread::sleep_for(std::chrono::milliseconds(1500)); done = true; } mem_file::sync(ec); }
};
int main() {
    using store = nudb::basic_store<raw_hash, slow_file>; fs().reset(); mkdb(); nudb::error_code ec; nudb::context ctx; store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    NEED(!put(db, key12(1, 1), 1)); armed = true; std::thread w([&] { ctx.run(); });
    while(!flushing) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    std::thread s([&] { ctx.stop_all(); }); std::this_thread::sleep_for(std::chrono::milliseconds(200));
    NEED(!done); bool waited = false; try { db.close(ec); waited = done; } catch(...) {}
    if(!waited) { std::printf("close did not wait for the flush\n"); std::fflush(stdout); std::_Exit(1); }
    NEED(!ec); s.join(); w.join();
}
'''
