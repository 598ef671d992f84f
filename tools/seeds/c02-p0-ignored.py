prop='C02'; needs='an insert of a key that is just being committed: taken out of the first buffer, not yet in the new buckets'; breaks='insert no longer looks for the key among the items being committed'
edits=[('impl/basic_store.ipp','''        if(s_->p1.find(key) != s_->p1.end() ||
           s_->p0.find(key) != s_->p0.end())
        {''','''        if(s_->p1.find(key) != s_->p1.end())
        {''')]
demo=r'''
#include "memfs.h"
#include <functional>
static std::function<void()> hook;
struct hook_file : mem_file { void sync(nudb::error_code& ec) { if(hook) { auto h = std::move(hook); hook = nullptr; h(); } mem_file::sync(ec); } };
int main() {
    using store = nudb::basic_store<raw_hash, hook_file>;
    fs().reset(); mkdb(); nudb::error_code ec; nudb::context ctx; store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    NEED(!put(db, key12(7, 7), 7)); NEED(!put(db, key12(9, 9), 9));
    bool ran = false; nudb::error_code e7, e8;
    hook = [&] { ran = true; e7 = put(db, key12(7, 7), 8); e8 = put(db, key12(8, 8), 8); };
    ctx.flush(); NEED(ran); NEED(e7 == nudb::error::key_exists); NEED(!e8);
    NEED(get(db, key12(7, 7), 7) == 1); NEED(get(db, key12(8, 8), 8) == 1);
    db.close(ec); NEED(!ec);
}
'''
