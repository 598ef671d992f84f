prop='C02'; needs='three keys with the same 48-bit hash in one bucket; the duplicate is not the first of them'; breaks='the duplicate check stops after the first entry with a matching hash'
edits=[('impl/basic_store.ipp','''            if(std::memcmp(pk, key, s_->kh.key_size) == 0)
                return true;
        }''','''            if(std::memcmp(pk, key, s_->kh.key_size) == 0)
                return true;
            if(i + 1 == b.size())
                break;
            if(b[i + 1].offset < item.offset)
                break;
        }''')]
demo=r'''
#include "memfs.h"
int main() {
    fs().reset(); mkdb(0.9f); nudb::error_code ec; nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    for(unsigned i = 0; i < 3; ++i) NEED(!put(db, key12(77, i), i));
    ctx.flush();
    for(unsigned i = 0; i < 3; ++i) NEED(put(db, key12(77, i), i + 9) == nudb::error::key_exists);
    ctx.flush();
    for(unsigned i = 0; i < 3; ++i) NEED(get(db, key12(77, i), i) == 1);
    db.close(ec); NEED(!ec);
}
'''
