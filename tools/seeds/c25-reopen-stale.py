prop='C25'; needs='the same store object is opened again after one of its commits failed'; breaks='the old failure comes back with the first commit after the store was opened again'
edits=[('impl/basic_store.ipp','''    ec_ = {};
    ecb_.store(false);
    recover<Hasher, File>(''','''    ecb_.store(false);
    recover<Hasher, File>(''')]
demo=r'''
#include "memfs.h"
int main() {
    for(long at = 0; at < 60; ++at) {
        fs().reset(); mkdb(); nudb::error_code ec; nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
        for(unsigned i = 0; i < 3; ++i) NEED(!put(db, key12(i, i), i));
        fs().fail_at = fs().ops + at; ctx.flush(); bool hit = fs().failed; fs().fail_at = -1;
        db.close(ec); NEED(!ec == !hit); ec = {};
        db.open("d", "k", "l", ec); NEED(!ec);
        for(unsigned i = 3; i < 6; ++i) NEED(!put(db, key12(i, i), i)); ctx.flush();
        for(unsigned i = 3; i < 6; ++i) NEED(get(db, key12(i, i), i) == 1);
        db.close(ec); NEED(!ec);
        if(!hit) break;
    }
}
'''
