prop='C03'; needs='machine crash during the key-file writes of a commit, with the log records still unsynced'; breaks='commit no longer syncs the log records before it overwrites buckets, so a crash can lose the rollback information while key-file writes persist'
edits=[('impl/basic_store.ipp','''        c0.clear();
        w.flush(ec);
        if(ec)
            return;
        s_->lf.sync(ec);
        if(ec)
            return;
    }''','''        c0.clear();
        w.flush(ec);
        if(ec)
            return;
    }''')]
demo=r'''
#include "memfs.h"
int main() {
    // count the operations of the second commit, then crash at each of them
    for(long at = 0;; ++at) {
        fs().reset(); mkdb(); nudb::error_code ec; bool over = false;
        { nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
          for(unsigned i = 0; i < 4; ++i) NEED(!put(db, key12(i, i), i)); ctx.flush();
          fs().snap_at = fs().ops + at;
          for(unsigned i = 4; i < 8; ++i) NEED(!put(db, key12(i, i), i)); ctx.flush();
          over = !fs().snapped; db.close(ec); }
        if(over) break;
        fs().crash([](std::string const& p) { return p == "k"; }); // key-file writes happened to reach the disk, nothing else unsynced did
        nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
        int n = 0; for(unsigned i = 0; i < 4; ++i) NEED(get(db, key12(i, i), i) == 1);
        for(unsigned i = 4; i < 8; ++i) { int r = get(db, key12(i, i), i); NEED(r >= 0); n += r; }
        NEED(n == 0 || n == 4); db.close(ec); NEED(!ec);
    }
}
'''
