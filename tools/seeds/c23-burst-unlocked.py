prop='C23'; needs='set_burst() called while another thread inserts'; breaks='set_burst writes the burst size without the lock under which insert and flush read it'
edits=[('impl/basic_store.ipp','''    detail::unique_lock_type m{m_};
    s_->burst = burst_size;''','''    s_->burst = burst_size;''')]
demo=r'''
#include "memfs.h"
#include <thread>
int main() {
    fs().reset(); mkdb(); nudb::error_code ec; nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    db.set_burst(1); NEED(!put(db, key12(1ull << 40, 1), 1)); ctx.flush(); db.set_burst(1000000); // now a flush rate is known
    std::thread t([&] { for(unsigned i = 0; i < 300; ++i) { db.set_burst(1000000 + i); std::this_thread::yield(); } });
    for(unsigned i = 0; i < 300; ++i) NEED(!put(db, key12(std::uint64_t(i) << 16, i), i));
    t.join(); db.close(ec); NEED(!ec);
}
'''
sh='demo_tsan.sh'
