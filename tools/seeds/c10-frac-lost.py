prop='C10'; needs='many small commits while the database stays open'; breaks='the progress towards the next split is forgotten after every commit: the table stops growing when commits are small'
edits=[('impl/basic_store.ipp','''    auto buckets = buckets_;
    {
''','''    auto buckets = buckets_;
    auto frac = frac_;
    {
'''),('impl/basic_store.ipp','''            if((frac_ += 65536) >= thresh_)
            {
                // split
                frac_ -= thresh_;''','''            if((frac += 65536) >= thresh_)
            {
                // split
                frac -= thresh_;''')]
demo=r'''
#include "memfs.h"
int main() {
    fs().reset(); mkdb(0.5f); nudb::error_code ec; nudb::context ctx; mem_store db(ctx); db.open("d", "k", "l", ec); NEED(!ec);
    for(unsigned i = 0; i < 40; ++i) { NEED(!put(db, key12(std::uint64_t(i * 7919u) << 16, i), i)); ctx.flush(); }
    db.close(ec); NEED(!ec);
    // block size 104 holds 5 entries: 40 items at half load need about 16 buckets
    auto const buckets = fs().files["k"]->cur.size() / 104 - 1; NEED(buckets >= 12 && buckets <= 18);
}
'''
