prop='C29'; needs='comparing an error code of the library with a condition of another category'; breaks='a library error compares equal to a foreign condition that has the same number'
edits=[('impl/error.ipp','''        equivalent(int ev,
            error_condition const& ec) const noexcept override
        {
            return ec.value() == ev && &ec.category() == this;''','''        equivalent(int ev,
            error_condition const& ec) const noexcept override
        {
            return ec.value() == ev;''')]
demo=r'''
#include "memfs.h"
int main() {
    for(int i = 1; i < 40; ++i) { nudb::error_code ec = static_cast<nudb::error>(i); NEED(ec != nudb::error_condition(i, boost::system::generic_category())); NEED(ec == ec.default_error_condition()); }
}
'''
