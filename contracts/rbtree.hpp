// Trusted contract of libstdc++'s out-of-line red-black tree primitives (tree.cc is not in the headers, so the verifier has no body for
// them): an unbalanced binary search tree with the same in-order sequence and the same header (root, leftmost, rightmost). Natively the
// real libstdc++ functions are linked.
#pragma once
#ifdef FV_SYMBOLIC
#include <bits/stl_tree.h>
namespace std
{
static inline _Rb_tree_node_base* fv_inc(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right != 0)
    {
        x = x->_M_right;
        while (x->_M_left != 0) x = x->_M_left;
    }
    else
    {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right)
        {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static inline _Rb_tree_node_base* fv_dec(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left != 0)
    {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right != 0) y = y->_M_right;
        x = y;
    }
    else
    {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left)
        {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
_Rb_tree_node_base*       _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return fv_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return fv_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base*       _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return fv_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return fv_dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
    x->_M_parent = p;
    x->_M_left   = 0;
    x->_M_right  = 0;
    x->_M_color  = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &header)
        {
            header._M_parent = x;
            header._M_right  = x;
        }
        else if (p == header._M_left) header._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
{
    _Rb_tree_node_base*& root      = header._M_parent;
    _Rb_tree_node_base*& leftmost  = header._M_left;
    _Rb_tree_node_base*& rightmost = header._M_right;
    _Rb_tree_node_base*  y         = z;
    _Rb_tree_node_base*  x         = 0;
    _Rb_tree_node_base*  xp        = 0;
    if (y->_M_left == 0) x = y->_M_right;
    else if (y->_M_right == 0) x = y->_M_left;
    else
    {
        y = y->_M_right;
        while (y->_M_left != 0) y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z)
    {
        z->_M_left->_M_parent = y;
        y->_M_left            = z->_M_left;
        if (y != z->_M_right)
        {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left   = x;
            y->_M_right             = z->_M_right;
            z->_M_right->_M_parent  = y;
        }
        else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        y            = z;
    }
    else
    {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z)
        {
            if (z->_M_right == 0) leftmost = z->_M_parent;
            else
            {
                _Rb_tree_node_base* m = x;
                while (m->_M_left != 0) m = m->_M_left;
                leftmost = m;
            }
        }
        if (rightmost == z)
        {
            if (z->_M_left == 0) rightmost = z->_M_parent;
            else
            {
                _Rb_tree_node_base* m = x;
                while (m->_M_right != 0) m = m->_M_right;
                rightmost = m;
            }
        }
    }
    (void)xp;
    return y;
}
}  // namespace std
#endif
