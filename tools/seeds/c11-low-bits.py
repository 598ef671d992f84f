prop='C11'; needs='two hashes in one bucket that agree in their low 32 bits'; breaks='the search in a bucket compares 32 of the 48 hash bits: entries are not sorted and are missed'
edits=[('detail/bucket.hpp','''        nhash_t h1;
        readp<f_hash>(p + i * w, h1);
        if(h1 < h)''','''        nhash_t h1;
        readp<f_hash>(p + i * w, h1);
        if(static_cast<std::uint32_t>(h1) <
           static_cast<std::uint32_t>(h))''')]
demo=r'''
#include "memfs.h"
int main() {
    fs().reset(); mkdb(0.9f); nudb::error_code ec; nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    NEED(!put(db, key12((3ull << 33 | 77) << 16, 0), 0));
    NEED(!put(db, key12((1ull << 33 | 77) << 16, 1), 1));
    NEED(!put(db, key12((2ull << 33 | 77) << 16, 2), 2));
    ctx.flush();
    NEED(get(db, key12((3ull << 33 | 77) << 16, 0), 0) == 1);
    NEED(get(db, key12((1ull << 33 | 77) << 16, 1), 1) == 1);
    NEED(get(db, key12((2ull << 33 | 77) << 16, 2), 2) == 1);
    db.close(ec); NEED(!ec);
}
'''
