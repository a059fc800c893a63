// Instrumented stand-ins for the parts of libstdc++ that live in the shared library and write memory the monitors read:
// without them MemorySanitizer would take every std::map node for uninitialised. Linked in the msan configuration only.
#include <map>
namespace std {
using P = _Rb_tree_node_base*;
static void rotl(P x, P& root) { P y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(P x, P& root) { P y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
P _Rb_tree_increment(P x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { P y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<P>(x)); }
P _Rb_tree_decrement(P x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { P y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } P y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<P>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, _Rb_tree_node_base& h) throw() {
    P& root = h._M_parent;
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        P g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            P u = g->_M_right;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
        } else {
            P u = g->_M_left;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
        }
    }
    root->_M_color = _S_black;
}
P _Rb_tree_rebalance_for_erase(P const z, _Rb_tree_node_base& h) throw() {   // unlinks; balance is not restored
    P& root = h._M_parent;
    P nl = h._M_left == z ? _Rb_tree_increment(z) : h._M_left, nr = h._M_right == z ? _Rb_tree_decrement(z) : h._M_right;
    auto put = [&](P o, P n) { if (o == root) root = n; else if (o == o->_M_parent->_M_left) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (!z->_M_left) put(z, z->_M_right);
    else if (!z->_M_right) put(z, z->_M_left);
    else {
        P y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color;
    }
    if (root) { root->_M_color = _S_black; h._M_left = nl; h._M_right = nr; } else h._M_left = h._M_right = &h;
    return z;
}
}
