// Runtime pieces of libstdc++ that live in the shared library and are therefore
// not part of the translation units of /repo: their bodies are instantiated from
// the installed headers (std::string, std::allocator) or given here as plain
// (trusted) implementations of the red-black-tree helpers (a tree without
// rebalancing: same observable map).
#include <string>
#include <map>
#include <list>
#include <vector>
#include <memory>
#include <stdexcept>
#include <algorithm>

template class std::allocator<char>;
template class std::basic_string<char>;

namespace std {
typedef _Rb_tree_node_base* B;
typedef const _Rb_tree_node_base* CB;
static B inc(B x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { B y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static B dec(B x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { B y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  B y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
B _Rb_tree_increment(B x) throw() { return inc(x); }
CB _Rb_tree_increment(CB x) throw() { return inc(const_cast<B>(x)); }
B _Rb_tree_decrement(B x) throw() { return dec(x); }
CB _Rb_tree_decrement(CB x) throw() { return dec(const_cast<B>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, B x, B p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
B _Rb_tree_rebalance_for_erase(B const z, _Rb_tree_node_base& h) throw() {
  B y = z, x = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    }
    if (h._M_parent == z) h._M_parent = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y = z;
  } else {
    B xp = y->_M_parent; if (x) x->_M_parent = xp;
    if (h._M_parent == z) h._M_parent = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { B m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { B m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) throw() {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
  _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
}
}
