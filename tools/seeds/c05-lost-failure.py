prop='C05'; needs='an I/O failure in a background commit, followed by more use of the same open store'; breaks='a commit that fails in the background does not make the error stick'
edits=[('impl/basic_store.ipp','''            commit(m, work, ec_);
            if(ec_)
            {
                ecb_.store(true);
                return;
            }
            BOOST_ASSERT(m.owns_lock());''','''            commit(m, work, ec_);
            if(ec_)
                return;
            BOOST_ASSERT(m.owns_lock());''')]
demo=r'''
#include "memfs.h"
int main() {
    for(long at = 0; at < 60; ++at) {
        fs().reset(); mkdb(); nudb::error_code ec; bool hit = false;
        nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
        for(unsigned i = 0; i < 3; ++i) NEED(!put(db, key12(i, i), i)); ctx.flush();
        for(unsigned i = 3; i < 6; ++i) NEED(!put(db, key12(i, i), i));
        fs().fail_at = fs().ops + at; ctx.flush(); hit = fs().failed; fs().fail_at = -1;
        if(hit) { NEED(put(db, key12(7, 7), 7)); db.close(ec); NEED(ec); } else { db.close(ec); NEED(!ec); }
    }
}
'''
