// Out-of-line parts of the standard library that the analysed code reaches: reference versions with the same
// observable behaviour (the red-black balancing, which no client can observe, is left out).
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>
#include <cstdlib>
#include <cmath>
namespace std {
static _Rb_tree_node_base* up(_Rb_tree_node_base* x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) x = y, y = y->_M_parent;
    return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* down(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) x = y, y = y->_M_parent;
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return up(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return up(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return down(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return down(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p;
    x->_M_left = x->_M_right = 0;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;  // also makes the leftmost of an empty tree
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (o == h._M_parent) h._M_parent = n;
        else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
        else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    _Rb_tree_node_base* lm = h._M_left == z ? up(z) : h._M_left;
    _Rb_tree_node_base* rm = h._M_right == z ? down(z) : h._M_right;
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y != z->_M_right) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) h._M_left = h._M_right = &h;
    else h._M_left = lm, h._M_right = rm;
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
    this->_M_next = p;
    this->_M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _List_node_base *n = this->_M_next, *p = this->_M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* t = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = (size_t)1 << 40;
    return n < 13 ? 13 : n;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (bkt < 13) return {true, 13};
    return {false, 0};
}
}  // namespace __detail
}  // namespace std
// numbers: functions that give two results
extern "C" {
#define DIV(NAME, T, I) T NAME(I a, I b) noexcept { T r; r.quot = a / b; r.rem = a % b; return r; }
DIV(div, div_t, int)
DIV(ldiv, ldiv_t, long)
DIV(lldiv, lldiv_t, long long)
double modf(double x, double* i) noexcept { return *i = __builtin_trunc(x), __builtin_copysign(x - *i, x); }
float modff(float x, float* i) noexcept { return *i = __builtin_truncf(x), __builtin_copysignf(x - *i, x); }
void sincos(double x, double* s, double* c) noexcept { *s = __builtin_sin(x), *c = __builtin_cos(x); }
void sincosf(float x, float* s, float* c) noexcept { *s = __builtin_sinf(x), *c = __builtin_cosf(x); }
double frexp(double x, int* e) noexcept {
    *e = 0;
    if (x == 0 || x != x || x - x != 0) return x;
    unsigned long b;
    __builtin_memcpy(&b, &x, 8);
    if ((b >> 52 & 2047) == 0) {
        x *= 18014398509481984.0;
        *e = -54;
        __builtin_memcpy(&b, &x, 8);
    }
    *e += (int)(b >> 52 & 2047) - 1022;
    b = (b & ~(2047ul << 52)) | 1022ul << 52;
    __builtin_memcpy(&x, &b, 8);
    return x;
}
float frexpf(float x, int* e) noexcept { return (float)frexp((double)x, e); }
}
