// Bodies for the out-of-line parts of libstdc++ that the encoded code reaches.
// Written from the published contracts of those functions; linked into every encoded module.
#include <string>
#include <cstring>
#include <cstdint>
#include <cctype>
#include <bits/stl_tree.h>

namespace std {
// Red-black tree primitives, modelled by an unbalanced binary search tree: only the in-order
// sequence, leftmost/rightmost and the header links are observable through std::map/std::set.
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header (end())
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  auto replace = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (h._M_parent) {
    auto *l = h._M_parent; while (l->_M_left) l = l->_M_left; h._M_left = l;
    auto *r = h._M_parent; while (r->_M_right) r = r->_M_right; h._M_right = r;
  } else { h._M_left = &h; h._M_right = &h; }
  return z;
}
unsigned char __rt_dummy;
} // namespace std

