prop='C31'; needs='a file object that is open is replaced by another one (move assignment)'; breaks='the file that was open before is never closed'
edits=[('impl/posix_file.ipp','''    close();
    fd_ = other.fd_;
    other.fd_ = -1;
    return *this;''','''    fd_ = other.fd_;
    other.fd_ = -1;
    return *this;''')]
demo=r'''
#include <nudb/nudb.hpp>
#include <nudb/posix_file.hpp>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#define NEED(c) do { if(!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while(0)
static int open_fds() { int n = 0; for(int i = 0; i < 200; ++i) if(::fcntl(i, F_GETFD) != -1) ++n; return n; }
int main() {
    nudb::error_code ec; int n = open_fds(); std::remove("a"); std::remove("b");
    { nudb::posix_file a, b; a.create(nudb::file_mode::write, "a", ec); NEED(!ec); b.create(nudb::file_mode::write, "b", ec); NEED(!ec); a = std::move(b); NEED(a.is_open()); NEED(!b.is_open()); }
    NEED(open_fds() == n);
}
'''
