// The POSIX file layer under every behaviour of the operating system: C13.
#include "sym.h"
#include <nudb/posix_file.hpp>
#include <nudb/error.hpp>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using nudb::error_code;
using nudb::file_mode;
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static const unsigned W = 40;
// one file; its bytes base..base+W-1 are visible, it ends at base+size
static uint64_t base, size;
static uint8_t d[W];
static unsigned eintr;
static bool erred;
static int err_no;
static unsigned calls;
static bool opened[8];
static unsigned closes[8], opens;
static int oflags;
static int omode;
static unsigned unlinks;
static uint64_t seen_len;
static uint64_t req_off, req_n;
static bool exists = true;
static int fad_ret;
static unsigned fads;
static bool allow_err;
static uint64_t st_size_;
static bool last_opened_created;
static void script() {
    allow_err = true;
    eintr = P("eintr", 2);
}
// does the call fail? EINTR a bounded number of times, any other error once
static bool fails() {
    calls++;
    sym_check(!erred, "no further system call after a failed one");
    if(eintr && sym_choose("eintr", 2)) {
        eintr--;
        errno = EINTR;
        return true;
    }
    if(allow_err && sym_choose("error", 2)) {
        uint64_t e = sym_bits("errno", 12);
        sym_assume(e != 0 && e != EINTR);
        err_no = (int)e;
        erred = true;
        errno = err_no;
        return true;
    }
    return false;
}
static bool okfd(int fd) { return fd >= 0 && fd < 8 && opened[fd]; }
extern "C" {
int model_open(const char* p, int fl, ...) {
    calls++;
    sym_check(!strcmp(p, "f"), "the path asked for");
    oflags = fl;
    if(allow_err && sym_choose("error", 2)) {
        uint64_t e = sym_bits("errno", 12);
        sym_assume(e != 0);
        err_no = (int)e;
        erred = true;
        errno = err_no;
        return -1;
    }
    if((fl & O_CREAT) && (fl & O_EXCL) && exists) {
        errno = EEXIST;
        return -1;
    }
    if(!exists && !(fl & O_CREAT)) {
        errno = ENOENT;
        return -1;
    }
    exists = true;
    for(int i = 0; i < 8; i++)
        if(!opened[i] && !closes[i]) {
            opened[i] = true;
            opens++;
            return i;
        }
    sym_kill();
}
int model_close(int fd) {
    sym_check(okfd(fd), "close of a descriptor that is not open");
    opened[fd] = false;
    closes[fd]++;
    return 0;
}
int model_posix_fadvise(int fd, off_t, off_t, int) {
    sym_check(okfd(fd), "fadvise on a descriptor that is not open");
    fads++;
    errno = 0;
    if(fad_ret) erred = true;
    return fad_ret;
}
int model_unlink(const char* p) {
    sym_check(!strcmp(p, "f"), "the path asked for");
    unlinks++;
    if(allow_err && !erred && sym_choose("error", 2)) {
        uint64_t e = sym_bits("errno", 12);
        sym_assume(e != 0);
        err_no = (int)e;
        erred = true;
        errno = err_no;
        return -1;
    }
    exists = false;
    return 0;
}
int model_fstat(int fd, struct stat* st) {
    sym_check(okfd(fd), "fstat on a descriptor that is not open");
    if(allow_err && sym_choose("error", 2)) {
        uint64_t e = sym_bits("errno", 12);
        sym_assume(e != 0);
        err_no = (int)e;
        erred = true;
        errno = err_no;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_size = (off_t)st_size_;
    return 0;
}
int model_fsync(int fd) {
    sym_check(okfd(fd), "fsync on a descriptor that is not open");
    if(fails()) return -1;
    seen_len++;
    return 0;
}
int model_fdatasync(int fd) { return model_fsync(fd); }
int model_ftruncate(int fd, off_t len) {
    sym_check(okfd(fd), "ftruncate on a descriptor that is not open");
    sym_check((uint64_t)len == req_off, "the length asked for");
    if(fails()) return -1;
    seen_len++;
    return 0;
}
ssize_t model_pread(int fd, void* b, size_t n, off_t off) {
    sym_check(okfd(fd), "pread on a descriptor that is not open");
    sym_check((uint64_t)off >= req_off && (uint64_t)off <= req_off + req_n && n <= req_off + req_n - (uint64_t)off,
              "pread stays within the range asked for");
    if(fails()) return -1;
    uint64_t o = sym_concretize((uint64_t)off - base);
    if(o >= size) return 0;
    uint64_t av = size - o;
    if(n < av) av = n;
    if(!av) return 0;
    uint64_t r = 1 + sym_choose("transfer", av);
    memcpy(b, d + o, r);
    return (ssize_t)r;
}
ssize_t model_pwrite(int fd, const void* b, size_t n, off_t off) {
    sym_check(okfd(fd), "pwrite on a descriptor that is not open");
    sym_check((uint64_t)off >= req_off && (uint64_t)off <= req_off + req_n && n <= req_off + req_n - (uint64_t)off,
              "pwrite stays within the range asked for");
    if(fails()) return -1;
    uint64_t o = sym_concretize((uint64_t)off - base);
    n = sym_concretize(n);
    if(!n) return 0;
    uint64_t r = 1 + sym_choose("transfer", n);
    sym_check(o + r <= W, "harness bound");
    memcpy(d + o, b, r);
    return (ssize_t)r;
}
}
static error_code sys(int e) { return error_code(e, boost::system::system_category()); }
static const file_mode modes[] = {file_mode::scan, file_mode::read, file_mode::append, file_mode::write};
static void open_plain(nudb::posix_file& f, file_mode m = file_mode::write) {
    error_code ec;
    f.open(m, "f", ec);
    sym_check(!ec && f.is_open(), "open");
}
static void closed_once() {
    for(int i = 0; i < 8; i++) {
        sym_check(!opened[i], "no descriptor is leaked");
        sym_check(closes[i] <= 1, "no descriptor is closed twice");
    }
}
static void place(unsigned n, unsigned& off) {
    base = sym_u64("base");
    sym_assume(base < (1ull << 62));
    off = (unsigned)sym_choose("offset", 3);
    req_off = base + off;
    req_n = n;
    sym_bytes(d, off + n + 2, "file");
}
extern "C" void h_pread() {
    {
        nudb::posix_file f;
        open_plain(f, modes[sym_choose("mode", 4)]);
        unsigned n = (unsigned)sym_choose("bytes", P("n", 4) + 1), off;
        place(n, off);
        size = sym_choose("filesize", off + n + 2);
        uint8_t buf[W];
        memset(buf, 0xee, sizeof buf);
        script();
        error_code ec;
        f.read(req_off, buf + 4, n, ec);
        if(erred) {
            sym_check(ec == sys(err_no), "the error is reported unchanged");
            sym_reach("error");
        } else if(ec) {
            sym_check(ec == nudb::error::short_read, "the only other error is short_read");
            sym_check(size < off + n, "short_read only past the end");
            sym_reach("short");
        } else {
            sym_check(n == 0 || size >= off + n, "success only if the range is in the file");
            for(unsigned i = 0; i < n; i++) sym_check(buf[4 + i] == d[off + i], "exact bytes");
            sym_reach(eintr < P("eintr", 2) ? "interrupted" : "read");
        }
        for(unsigned i = 0; i < W; i++)
            if(i < 4 || i >= 4 + n) sym_check(buf[i] == 0xee, "nothing outside the buffer is written");
        sym_check(f.is_open(), "file stays open");
        sym_observe(ec.value());
    }
    closed_once();
}
extern "C" void h_pwrite() {
    {
        nudb::posix_file f;
        open_plain(f, sym_choose("mode", 2) ? file_mode::write : file_mode::append);
        unsigned n = (unsigned)sym_choose("bytes", P("n", 4) + 1), off;
        place(n, off);
        uint8_t old[W];
        memcpy(old, d, W);
        uint8_t buf[W];
        if(n) sym_bytes(buf, n, "data");
        script();
        error_code ec;
        f.write(req_off, buf, n, ec);
        if(erred) {
            sym_check(ec == sys(err_no), "the error is reported unchanged");
            sym_reach("error");
        } else {
            sym_check(!ec, "success unless a call failed");
            for(unsigned i = 0; i < n; i++) sym_check(d[off + i] == buf[i], "every byte is written in place");
            sym_reach(eintr < P("eintr", 2) ? "interrupted" : "write");
        }
        bool pre = true;
        for(unsigned i = 0; i < W; i++)
            if(i < off || i >= off + n) pre &= d[i] == old[i];
        sym_check(pre, "nothing outside the range is written");
        sym_observe(ec.value());
    }
    closed_once();
}
extern "C" void h_sync_trunc() {
    {
        nudb::posix_file f;
        open_plain(f);
        script();
        error_code ec;
        bool t = sym_choose("what", 2);
        if(t) {
            req_off = sym_u64("length");
            sym_assume(req_off < (1ull << 63));
            f.trunc(req_off, ec);
        } else
            f.sync(ec);
        if(erred)
            sym_check(ec == sys(err_no), "the error is reported unchanged");
        else {
            sym_check(!ec, "success unless a call failed");
            sym_check(seen_len == 1, "the call was made and succeeded");
            sym_reach(t ? "trunc" : "sync");
        }
        sym_observe(ec.value());
    }
    closed_once();
}
extern "C" void h_size() {
    {
        nudb::posix_file f;
        open_plain(f);
        allow_err = true;
        st_size_ = sym_u64("size");
        sym_assume(st_size_ < (1ull << 63));
        error_code ec;
        uint64_t s = f.size(ec);
        if(erred)
            sym_check(ec == sys(err_no), "the error is reported unchanged");
        else {
            sym_check(!ec && s == st_size_, "the size of the file");
            sym_reach("size");
        }
    }
    closed_once();
}
// opening, creating, erasing
extern "C" void h_open_create() {
    {
        nudb::posix_file f;
        sym_check(!f.is_open(), "a new object is closed");
        unsigned mi = (unsigned)sym_choose("mode", 4);
        exists = sym_choose("exists", 2);
        bool was = exists, cr = sym_choose("create", 2);
        if(P("fadv", 1) && sym_choose("fadvise", 2)) {
            uint64_t e = sym_bits("errno_f", 12);
            sym_assume(e != 0);
            fad_ret = (int)e;
        }
        allow_err = fad_ret == 0;
        error_code ec;
        if(cr)
            f.create(modes[mi], "f", ec);
        else
            f.open(modes[mi], "f", ec);
        int acc = oflags & O_ACCMODE;
        if(mi < 2)
            sym_check(acc == O_RDONLY || cr, "scan and read open for reading");
        else
            sym_check(acc == O_RDWR, "append and write open for reading and writing");
        sym_check(mi == 3 ? !(oflags & O_APPEND) : true, "write mode writes in place");
        sym_check(!(oflags & O_TRUNC), "opening never truncates");
        sym_check(!!(oflags & O_CREAT) == cr, "only create creates");
        if(cr) sym_check(oflags & O_EXCL, "create never opens an existing file");
        if(fads && fad_ret) {
            sym_check(ec == sys(fad_ret), "a posix_fadvise failure is reported");
            sym_check(!f.is_open(), "and the file is not open");
            sym_check(!cr ? exists == was && !unlinks : !exists, "and a created file is removed");
            sym_reach("fadvise");
        } else if(erred) {
            sym_check(ec == sys(err_no), "the error is reported unchanged");
            sym_check(!f.is_open(), "not open after an error");
            sym_check(exists == was && !unlinks, "nothing is removed");
            sym_reach("error");
        } else if(cr && was) {
            sym_check(ec == boost::system::errc::make_error_condition(boost::system::errc::file_exists),
                      "create of an existing file");
            sym_check(!f.is_open() && !unlinks, "the existing file stays");
            sym_reach("exists");
        } else if(!cr && !was) {
            sym_check(ec == boost::system::errc::make_error_condition(boost::system::errc::no_such_file_or_directory),
                      "open of a missing file");
            sym_check(!f.is_open(), "not open");
            sym_reach("missing");
        } else {
            sym_check(!ec && f.is_open(), "success opens the file");
            sym_reach("open");
            if(sym_choose("close", 2)) {
                f.close();
                sym_check(!f.is_open(), "closed");
                if(sym_choose("again", 2)) f.close();
            }
        }
        sym_observe(ec.value());
    }
    closed_once();
}
extern "C" void h_erase() {
    allow_err = true;
    exists = true;
    error_code ec;
    nudb::posix_file::erase("f", ec);
    sym_check(unlinks == 1, "one unlink");
    if(erred)
        sym_check(ec == sys(err_no), "the error is reported unchanged");
    else {
        sym_check(!ec && !exists, "erased");
        sym_reach("erased");
    }
}
// moving: exactly one close per descriptor
extern "C" void h_move() {
    {
        nudb::posix_file a, b;
        bool oa = sym_choose("a", 2), ob = sym_choose("b", 2);
        if(oa) open_plain(a);
        if(ob) open_plain(b);
        unsigned k = (unsigned)sym_choose("op", 3);
        if(k == 0) {
            b = std::move(a);
            sym_check(b.is_open() == oa && !a.is_open(), "move assignment transfers");
            if(ob) sym_check(closes[oa ? 1 : 0] == 1, "the target's descriptor is closed");
        } else if(k == 1) {
            nudb::posix_file c(std::move(a));
            sym_check(c.is_open() == oa && !a.is_open(), "move construction transfers");
            sym_check(b.is_open() == ob, "others untouched");
        } else {
            nudb::posix_file& r = a;
            a = std::move(r);
            sym_check(a.is_open() == oa, "self assignment keeps the file open");
        }
        if(!a.is_open() && k < 2) {
            error_code ec;
            a.open(file_mode::read, "f", ec);
            sym_check(!ec && a.is_open(), "a moved-from object can be used again");
        }
        sym_reach("move");
    }
    closed_once();
    for(unsigned i = 0; i < opens; i++) sym_check(closes[i] == 1, "every descriptor is closed exactly once");
}
