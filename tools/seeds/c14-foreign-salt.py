prop='C14'; needs='a log file of another database with equal uid, appnum and key size but another salt'; breaks='recovery no longer compares the salt of log and key file'
edits=[('detail/format.hpp','''    if(kh.salt != lh.salt)
    {
        ec = error::salt_mismatch;
        return;
    }
    if(kh.pepper != lh.pepper)
    {
        ec = error::pepper_mismatch;
        return;
    }''','''    if(kh.salt != lh.salt && kh.pepper == lh.pepper)
    {
        ec = error::salt_mismatch;
        return;
    }''')]
demo=r'''
#include "memfs.h"
static void make(unsigned long long salt, bool crash) { nudb::error_code ec; nudb::create<raw_hash, mem_file>("d", "k", "l", 1, 99, salt, 12, 104, 0.5f, ec); NEED(!ec);
    nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); for(unsigned i = 0; i < 3; ++i) NEED(!put(db, key12(i, i), i));
    if(crash) { ctx.flush(); fs().snap_at = fs().ops + 8; NEED(!put(db, key12(5, 5), 5)); ctx.flush(); NEED(fs().snapped); } db.close(ec); }
int main() {
    fs().reset(); make(5, true); bytes log = fs().snap["l"].first; NEED(log.size() >= 62);
    fs().reset(); make(6, false);
    auto n = std::make_shared<node>(); n->cur = n->dur = log; fs().files["l"] = n; bytes d = fs().files["d"]->cur, k = fs().files["k"]->cur;
    nudb::error_code ec; nudb::recover<raw_hash, mem_file>("d", "k", "l", ec);
    NEED(ec); NEED(fs().files["d"]->cur == d); NEED(fs().files["k"]->cur == k);
}
'''
