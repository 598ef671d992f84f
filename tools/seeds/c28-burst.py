prop='C28'; needs='a burst size larger than the measured flush rate and a little more than the rate buffered'; breaks='the amount buffered is compared with the flush rate instead of the burst size'
edits=[('impl/basic_store.ipp','''        s_->rate && rate > s_->rate && work > s_->burst;''','''        s_->rate && rate > s_->rate && work > s_->rate;''')]
demo=r'''
#include "memfs.h"
#include <ctime>
#include <unistd.h>
static int sleeps = 0;
extern "C" int nanosleep(const struct timespec*, struct timespec*) { ++sleeps; return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { ++sleeps; return 0; }
static bool slow = false;
struct slow_file : mem_file { void sync(nudb::error_code& ec) { if(slow) usleep(100000); mem_file::sync(ec); } };
int main() {
    using store = nudb::basic_store<raw_hash, slow_file>; fs().reset(); mkdb(); nudb::error_code ec; nudb::context ctx; store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    db.set_burst(1); NEED(!put(db, key12(1, 1), 1)); slow = true; ctx.flush(); slow = false; // a slow commit: a few KB per second
    db.set_burst(100000000); sleeps = 0; for(unsigned i = 2; i < 200; ++i) NEED(!put(db, key12(i, i), i)); NEED(sleeps == 0); // far below the burst
    db.set_burst(10000); for(unsigned i = 200; i < 300; ++i) NEED(!put(db, key12(i, i), i)); NEED(sleeps > 0);
    db.close(ec); NEED(!ec);
}
'''
