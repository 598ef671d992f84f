prop='C19'; needs='a power failure right after create returned'; breaks='create returns before the key file is on disk'
edits=[('impl/create.ipp','''        kf.sync(ec);
        if(ec)
            goto fail;
''','')]
demo=r'''
#include "memfs.h"
int main() {
    fs().reset(); mkdb(); fs().take(); fs().crash([](std::string const&) { return false; }); nudb::error_code ec;
    nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec); NEED(!put(db, key12(1, 1), 1)); NEED(get(db, key12(1, 1), 1) == 1); db.close(ec); NEED(!ec);
}
'''
