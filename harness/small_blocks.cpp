// Overrides nudb::block_size so that write and read buffers are small (by default 32*64 = 2 KB, 64 KB for recovery) and
// overflow within the bounds.
#include <string>
#include <cstddef>
#include "sym.h"
namespace nudb {
std::size_t block_size(std::string const&);
std::size_t block_size(std::string const&) { return sym_param("blk", 64); }
} // namespace nudb
