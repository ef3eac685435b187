// Specification-level models of the few out-of-line libstdc++ pieces the
// analysed code calls (red-black tree linkage is modelled as an unbalanced
// search tree: iteration order and membership are the same).
#include <bits/stl_tree.h>
#include <string>
#include <stdexcept>
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
    return inc(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
    return dec(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) throw() {
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;  // header stays the only red node
    if (left) {
        p->_M_left = x;
        if (p == &header) {
            header._M_parent = x;
            header._M_right = x;
        } else if (p == header._M_left)
            header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                                                 _Rb_tree_node_base& header) throw() {
    _Rb_tree_node_base *x, *p;
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (header._M_parent == o)
            header._M_parent = n;
        else if (o->_M_parent->_M_left == o)
            o->_M_parent->_M_left = n;
        else
            o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    const bool first = header._M_left == z, last = header._M_right == z;
    if (!z->_M_left)
        replace(z, z->_M_right);
    else if (!z->_M_right)
        replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (first || last) {
        if (!header._M_parent)
            header._M_left = header._M_right = &header;
        else {
            if (first) {
                x = header._M_parent;
                while (x->_M_left) x = x->_M_left;
                header._M_left = x;
            }
            if (last) {
                p = header._M_parent;
                while (p->_M_right) p = p->_M_right;
                header._M_right = p;
            }
        }
    }
    return z;
}
template class basic_string<char>;
}  // namespace std

// shared_ptr chooses its locking policy with this glibc flag
extern "C" char __libc_single_threaded = 1;

// hash tables: every table size is allowed, so the simplest growth policy represents the library's
#include <unordered_map>
namespace std {
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    _M_next_resize = n;
    return n < 3 ? 3 : n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni <= _M_next_resize) return {false, 0};
    return {true, _M_next_bkt(2 * (ne + ni) + 1)};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) seed = seed * 31 + c[i];
    return seed;
}
}  // namespace std
extern "C" void* memchr(const void* p, int c, size_t n) noexcept {
    const unsigned char* s = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i)
        if (s[i] == (unsigned char)c) return const_cast<unsigned char*>(s + i);
    return nullptr;
}
