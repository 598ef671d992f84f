prop='C16'; needs='crash after rekey has written the full key file header but before its log header is durable'; breaks='rekey no longer syncs its log header before it makes the key file usable'
edits=[('impl/rekey.ipp','''        write(lf, lh, ec);
        if(ec)
            return;
        lf.sync(ec);
        if(ec)
            return;
    }''','''        write(lf, lh, ec);
        if(ec)
            return;
    }''')]
demo=r'''
#include "memfs.h"
int main() {
    for(long at = 0;; ++at) {
        fs().reset(); mkdb(); nudb::error_code ec;
        { nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); for(unsigned i = 0; i < 9; ++i) NEED(!put(db, key12(i, i), i)); db.close(ec); NEED(!ec); }
        fs().files.erase("k"); bytes d = fs().files["d"]->cur; fs().snap_at = fs().ops + at;
        nudb::rekey<raw_hash, mem_file>("d", "k", "l", 104, 0.5f, 9, 1000000, ec, nudb::no_progress{}); NEED(!ec);
        if(!fs().snapped) break;
        fs().crash([](std::string const& p) { return p == "k"; });
        nudb::recover<raw_hash, mem_file>("d", "k", "l", ec); ec = {};
        NEED(fs().files["d"]->cur.size() >= d.size());
        if(fs().files.count("k")) { nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); if(!ec) { for(unsigned i = 0; i < 9; ++i) NEED(get(db, key12(i, i), i) == 1); db.close(ec); } }
    }
}
'''
