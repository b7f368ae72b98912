// The out-of-line parts of std::map/std::set/std::list, compiled together with the harness so that the
// race detector (and the scheduler) see the memory accesses that libstdc++.so makes on our behalf.
#include <list>
#include <map>
#include <set>

namespace std {
static _Rb_tree_node_base *incr(_Rb_tree_node_base *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base *decr(_Rb_tree_node_base *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base *x) throw () { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base *x) throw () { return incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base *x) throw () { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base *x) throw () { return decr(const_cast<_Rb_tree_node_base*>(x)); }

static void replace_child(_Rb_tree_node_base *x, _Rb_tree_node_base *y, _Rb_tree_node_base *&root) {
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
}
static void rot_left(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x;
    replace_child(x, y, root); y->_M_left = x; x->_M_parent = y;
}
static void rot_right(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x;
    replace_child(x, y, root); y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw () {
    _Rb_tree_node_base *&root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base *pp = x->_M_parent, *g = pp->_M_parent; bool l = pp == g->_M_left; _Rb_tree_node_base *u = l ? g->_M_right : g->_M_left;
        if (u && u->_M_color == _S_red) { pp->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; continue; }
        if (l) { if (x == pp->_M_right) { x = pp; rot_left(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rot_right(g, root); }
        else { if (x == pp->_M_left) { x = pp; rot_right(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rot_left(g, root); }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw () {
    _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right, *y = z, *x = 0, *xp = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { leftmost = x; while (leftmost->_M_left) leftmost = leftmost->_M_left; } }
        if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { rightmost = x; while (rightmost->_M_right) rightmost = rightmost->_M_right; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            bool l = x == xp->_M_left; _Rb_tree_node_base *w = l ? xp->_M_right : xp->_M_left;
            if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; if (l) rot_left(xp, root); else rot_right(xp, root); w = l ? xp->_M_right : xp->_M_left; }
            _Rb_tree_node_base *near = l ? w->_M_left : w->_M_right, *far = l ? w->_M_right : w->_M_left;
            if ((!near || near->_M_color == _S_black) && (!far || far->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; continue; }
            if (!far || far->_M_color == _S_black) { near->_M_color = _S_black; w->_M_color = _S_red; if (l) rot_right(w, root); else rot_left(w, root); w = l ? xp->_M_right : xp->_M_left; far = l ? w->_M_right : w->_M_left; }
            w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (far) far->_M_color = _S_black; if (l) rot_left(xp, root); else rot_right(xp, root); break;
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = this->_M_next, *p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
}
}
