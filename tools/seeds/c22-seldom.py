prop='C22'; needs='waiting for a commit by the service thread without closing the database'; breaks='the service thread commits every ten seconds instead of every second'
edits=[('impl/context.ipp','''when + std::chrono::seconds{1}''','''when + std::chrono::seconds{10}''')]
demo=r'''
#include "memfs.h"
#include <thread>
#include <chrono>
int main() {
    mkdb(); nudb::error_code ec; nudb::context ctx; ctx.start(); mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    auto before = fs().files["d"]->cur.size(); NEED(!put(db, key12(1 << 16, 1), 1));
    std::this_thread::sleep_for(std::chrono::milliseconds(5000));
    NEED(fs().files["d"]->cur.size() > before);
    db.close(ec); NEED(!ec);
}
'''
