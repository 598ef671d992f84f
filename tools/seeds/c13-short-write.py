prop='C13'; needs='a pwrite that transfers only part of the bytes twice in a row'; breaks='the position is advanced wrongly after a second partial write'
edits=[('impl/posix_file.ipp','''        offset += n;
        bytes -= n;
        buffer = reinterpret_cast<char const*>(buffer) + n;''','''        offset += n;
        bytes -= n;
        buffer = reinterpret_cast<char const*>(buffer) + n;
        if(bytes > static_cast<std::size_t>(amount) / 2)
            buffer = reinterpret_cast<char const*>(buffer) - n;''')]
demo=r'''
#include <nudb/nudb.hpp>
#include <nudb/posix_file.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/syscall.h>
static std::size_t lim = 3;
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return syscall(SYS_pwrite64, fd, b, n < lim ? n : lim, o); }
extern "C" ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
#define NEED(c) do { if(!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while(0)
int main() {
    for(lim = 1; lim < 9; ++lim) { nudb::error_code ec; nudb::posix_file f; std::remove("f"); f.create(nudb::file_mode::write, "f", ec); NEED(!ec);
        char out[20], in[20]; for(int i = 0; i < 20; ++i) out[i] = char('a' + i);
        f.write(5, out, 20, ec); NEED(!ec); f.read(5, in, 20, ec); NEED(!ec); NEED(!std::memcmp(in, out, 20)); NEED(f.size(ec) == 25); }
}
'''
