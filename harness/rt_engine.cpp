// Engine-only runtime: definitions that live in libstdc++.so, written from their documented behaviour.
#include "sym.h"
#include <cstdlib>
#include <cstring>
#include <bits/stl_tree.h>
#include <string>
#include <unordered_map>
#include <system_error>
template class std::basic_string<char>;
extern "C" {
int model_errno;
void* __dso_handle;
}
namespace boost {
void assertion_failed(char const* expr, char const*, char const*, long) { sym_fail(expr); }
void assertion_failed_msg(char const* expr, char const*, char const*, char const*, long) { sym_fail(expr); }
} // namespace boost
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
    if(x->_M_right) {
        x = x->_M_right;
        while(x->_M_left) x = x->_M_left;
    } else {
        auto y = x->_M_parent;
        while(x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if(x->_M_right != y) x = y;
    }
    return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
    if(x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
        x = x->_M_right;
    else if(x->_M_left) {
        auto y = x->_M_left;
        while(y->_M_right) y = y->_M_right;
        x = y;
    } else {
        auto y = x->_M_parent;
        while(x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
    return inc(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
    return dec(const_cast<_Rb_tree_node_base*>(x));
}
// unbalanced insertion: order and iteration are what callers can observe.  The header keeps root red so that
// decrement(end) is recognised.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& h) throw() {
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if(left) {
        p->_M_left = x;
        if(p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if(p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if(p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if(h._M_parent == a)
            h._M_parent = b;
        else if(a->_M_parent->_M_left == a)
            a->_M_parent->_M_left = b;
        else
            a->_M_parent->_M_right = b;
        if(b) b->_M_parent = a->_M_parent;
    };
    _Rb_tree_node_base* nl = h._M_left == z ? inc(z) : nullptr;
    _Rb_tree_node_base* nr = h._M_right == z ? dec(z) : nullptr;
    if(!z->_M_left)
        repl(z, z->_M_right);
    else if(!z->_M_right)
        repl(z, z->_M_left);
    else {
        auto y = z->_M_right;
        while(y->_M_left) y = y->_M_left;
        if(y->_M_parent != z) {
            repl(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        repl(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if(nl) h._M_left = nl;
    if(nr) h._M_right = nr;
    if(!h._M_parent) {
        h._M_left = &h;
        h._M_right = &h;
    }
    return z;
}
namespace __detail {
static size_t primes[] = {2,    5,    11,    23,    47,    97,     199,    409,    823,    1741,
                          3469, 6949, 14033, 28411, 57557, 116731, 236897, 480881, 976369, 1982627};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    if(n < 2) {
        _M_next_resize = 1;
        return n == 0 ? 1 : 2;
    }
    for(size_t p : primes)
        if(p >= n) {
            _M_next_resize = p;
            return p;
        }
    sym_fail("hash table too large for the model");
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if(ne + ni > _M_next_resize || _M_next_resize == 0) {
        size_t want = ne + ni;
        if(_M_next_resize == 0 && want < 11) want = 11;
        if(want > nb) {
            size_t a = want + 1, b = nb * 2;
            return {true, _M_next_bkt(a > b ? a : b)};
        }
        _M_next_resize = nb;
        return {false, 0};
    }
    return {false, 0};
}
} // namespace __detail
void __throw_system_error(int) { sym_fail("std::system_error thrown"); }
} // namespace std
