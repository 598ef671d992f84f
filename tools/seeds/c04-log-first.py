prop='C04'; needs='a crash during recovery after the log was emptied, with the restored buckets not yet on disk'; breaks='recovery empties the log before the restored key file is durable'
edits=[('impl/recover.ipp','''        kf.trunc(lh.key_file_size, ec);
        if(ec)
            return;
        kf.sync(ec);
        if(ec)
            return;''','''        kf.trunc(lh.key_file_size, ec);
        if(ec)
            return;''')]
demo=r'''
#include "memfs.h"
int main() {
    // a commit stops while it overwrites the key file
    for(long at = 0;; ++at) {
        fs().reset(); mkdb(); nudb::error_code ec;
        { nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); for(unsigned i = 0; i < 6; ++i) NEED(!put(db, key12(i, i), i)); ctx.flush();
          for(unsigned i = 6; i < 12; ++i) NEED(!put(db, key12(i, i), i)); fs().snap_at = fs().ops + at; ctx.flush(); db.close(ec); NEED(!ec); }
        if(!fs().snapped) break;
        fs().crash([](std::string const& p) { return true; }); fs().snapped = false;
        auto files = fs().snap;
        for(long r = 0;; ++r) {
            fs().snap = files; fs().crash([](std::string const&) { return true; }); fs().snapped = false;
            // everything on disk after the first crash is durable
            fs().snap_at = fs().ops + r; nudb::recover<raw_hash, mem_file>("d", "k", "l", ec); ec = {};
            if(!fs().snapped) break;
            fs().crash([](std::string const& p) { return p != "k"; });
            nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
            for(unsigned i = 0; i < 6; ++i) NEED(get(db, key12(i, i), i) == 1);
            int n = 0; for(unsigned i = 6; i < 12; ++i) { int g = get(db, key12(i, i), i); NEED(g >= 0); n += g; } NEED(n == 0 || n == 6);
            db.close(ec); NEED(!ec);
        }
    }
}
'''
