prop='C09'; needs='a key file of another database that differs in the application number only'; breaks='the application numbers of data and key file are no longer compared when a database is opened'
edits=[('detail/format.hpp','''    if(kh.appnum != dh.appnum)
    {
        ec = error::appnum_mismatch;
        return;
    }
''','''    if(kh.appnum != dh.appnum && dh.appnum == 0)
    {
        ec = error::appnum_mismatch;
        return;
    }
''')]
demo=r'''
#include "memfs.h"
int main() {
    fs().reset(); nudb::error_code ec; nudb::create<raw_hash, mem_file>("d", "k", "l", 3, 99, 5, 12, 104, 0.5f, ec); NEED(!ec); nudb::create<raw_hash, mem_file>("D", "K", "L", 4, 99, 5, 12, 104, 0.5f, ec); NEED(!ec);
    nudb::context ctx; { mem_store db(ctx); db.open("D", "K", "L", ec); NEED(!ec); for(unsigned i = 0; i < 9; ++i) NEED(!put(db, key12(std::uint64_t(i) << 16, i), i)); db.close(ec); NEED(!ec); }
    mem_store db(ctx); db.open("d", "K", "l", ec); NEED(ec == nudb::error::appnum_mismatch);
}
'''
