// Buffered streaming of files: C12. Internal: drives nudb::detail::bulk_reader and bulk_writer over a file of its own.
#include "sym.h"
#include <nudb/detail/bulkio.hpp>
#include <nudb/error.hpp>
#include <cstring>
using nudb::error_code;
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static const unsigned W = 64, GUARD = 0xa5;
// a file whose bytes base..base+size-1 are the window; any access outside is a violation
struct MemFile {
    uint64_t base, size;
    uint8_t d[W];
    bool wr[W];
    unsigned nread, nwrite;
    uint64_t fail_at;
    bool failed;
    void read(std::uint64_t off, void* p, std::size_t n, error_code& ec) {
        sym_check(!failed, "no operation after a failed one");
        if(nread++ == fail_at) {
            failed = true;
            ec = error_code(5, boost::system::system_category());
            return;
        }
        sym_check(n > 0, "nothing is read needlessly");
        sym_check(off >= base && off <= base + size && n <= size - (off - base), "reads stay within the file");
        uint64_t o = sym_concretize(off - base);
        n = sym_concretize(n);
        memcpy(p, d + o, n);
    }
    void write(std::uint64_t off, const void* p, std::size_t n, error_code& ec) {
        sym_check(!failed, "no operation after a failed one");
        if(nwrite++ == fail_at) {
            failed = true;
            ec = error_code(5, boost::system::system_category());
            return;
        }
        sym_check(off == base + size, "writes continue where the last one ended");
        n = sym_concretize(n);
        sym_check(size + n <= W, "harness bound");
        memcpy(d + size, p, n);
        for(unsigned i = 0; i < n; i++) wr[size + i] = true;
        size += n;
    }
};
static MemFile f;
// any requests, any buffer size, any file length and start
extern "C" void h_read() {
    unsigned steps = P("steps", 3), maxb = P("maxbuf", 6), maxn = P("maxneed", 7), maxf = P("maxfile", 12);
    f.base = sym_u64("base");
    sym_assume(f.base < (1ull << 48));
    f.size = sym_choose("filesize", maxf + 1);
    sym_bytes(f.d, f.size, "file");
    f.fail_at = P("fail", 1) ? sym_below("fail_at", 6) : 99;
    if(f.fail_at >= 5) f.fail_at = ~0ull;
    uint64_t pos = 0;
    std::size_t bs = (std::size_t)sym_choose("buffer", maxb) + 1;
    nudb::detail::bulk_reader<MemFile> r(f, f.base, f.base + f.size, bs);
    for(unsigned s = 0; s < steps; s++) {
        sym_check(r.offset() == f.base + pos, "offset is the position of the next byte");
        sym_check(r.eof() == (pos >= f.size), "eof exactly at the end");
        uint64_t n = sym_choose("need", maxn + 1);
        error_code ec;
        auto is = r.prepare(n, ec);
        if(pos + n > f.size) {
            sym_check(ec == nudb::error::short_read, "a request past the end is short_read");
            sym_check(r.offset() == f.base + pos, "position unchanged by a short read");
            sym_reach("short read");
            continue;
        }
        if(f.failed) {
            sym_check(ec == error_code(5, boost::system::system_category()), "a failed read is reported");
            sym_reach("failed");
            return;
        }
        sym_check(!ec, "a request within the file succeeds");
        for(unsigned i = 0; i < n; i++) {
            const std::uint8_t* q = is.data(1);
            sym_check(*q == f.d[pos + i], "exact bytes, in order");
        }
        pos += n;
    }
    sym_check(r.offset() == f.base + pos, "offset at the end");
    sym_observe(pos);
    sym_reach("read");
}
extern "C" void h_write() {
    unsigned steps = P("steps", 3), maxb = P("maxbuf", 6), maxn = P("maxneed", 8);
    f.base = sym_u64("base");
    sym_assume(f.base < (1ull << 48));
    f.size = 0;
    f.fail_at = P("fail", 1) ? sym_below("fail_at", 6) : 99;
    if(f.fail_at >= 5) f.fail_at = ~0ull;
    uint8_t exp[W];
    uint64_t pos = 0;
    std::size_t bs = (std::size_t)sym_choose("buffer", maxb) + 1;
    nudb::detail::bulk_writer<MemFile> w(f, f.base, bs);
    error_code ec;
    for(unsigned s = 0; s < steps; s++) {
        sym_check(w.offset() == f.base + pos, "offset is where the next byte goes");
        sym_check(w.size() == pos - f.size, "size is what is buffered");
        uint64_t n = sym_choose("need", maxn + 1);
        auto os = w.prepare(n, ec);
        if(f.failed) {
            sym_check(ec == error_code(5, boost::system::system_category()), "a failed write is reported");
            sym_reach("failed");
            return;
        }
        sym_check(!ec, "prepare succeeds");
        if(n) {
            sym_bytes(exp + pos, n, "bytes");
            for(unsigned i = 0; i < n; i++) *os.data(1) = exp[pos + i];
        }
        pos += n;
        if(P("midflush", 1) && sym_choose("flush", 2)) {
            w.flush(ec);
            if(f.failed) {
                sym_check((bool)ec, "a failed flush is reported");
                return;
            }
            sym_check(!ec && f.size == pos && w.size() == 0, "flush writes everything");
        }
    }
    w.flush(ec);
    if(f.failed) {
        sym_check((bool)ec, "a failed flush is reported");
        return;
    }
    sym_check(!ec, "flush");
    sym_check(f.size == pos, "every byte written, once");
    for(unsigned i = 0; i < pos; i++) sym_check(f.d[i] == exp[i], "exact bytes at their offsets");
    sym_check(w.offset() == f.base + pos, "offset at the end");
    sym_observe(pos);
    sym_reach("write");
}
