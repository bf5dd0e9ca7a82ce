// Definitions, for the analysis only, of the parts of the standard library that live in libstdc++.so:
// the node operations of std::map/set, std::list and the unordered containers.  They keep the contract
// of the real ones; the search tree is not balanced, which only affects the cost.
#include <map>
#include <list>
#include <unordered_map>
namespace std {
typedef _Rb_tree_node_base *RB;
static inline RB inc(RB x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  RB y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static inline RB dec(RB x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // the end
  if (x->_M_left) { RB y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  RB y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
RB _Rb_tree_increment(RB x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<RB>(x)); }
RB _Rb_tree_decrement(RB x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<RB>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, RB x, RB p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
RB _Rb_tree_rebalance_for_erase(RB z, _Rb_tree_node_base &h) throw() {
  RB next = inc(z), prev = 0;
  if (h._M_right == z) prev = dec(z);
  RB child;
  if (!z->_M_left) child = z->_M_right;
  else if (!z->_M_right) child = z->_M_left;
  else { // the successor takes the place of z
    RB y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y != z->_M_right) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    y->_M_left = z->_M_left; z->_M_left->_M_parent = y; child = y;
  }
  RB p = z->_M_parent;
  if (child) child->_M_parent = p;
  if (p == &h) h._M_parent = child; else if (p->_M_left == z) p->_M_left = child; else p->_M_right = child;
  if (h._M_left == z) h._M_left = next;
  if (h._M_right == z) h._M_right = prev;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
  _List_node_base *const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t r = 13; while (r < n) r = r * 2 + 3; _M_next_resize = r; return r; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b, std::size_t e, std::size_t i) const {
  if (e + i <= b && b > 1) return {false, 0};
  return {true, _M_next_bkt(e + i)};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t k = 0; k < n; ++k) h = h * 31 + c[k]; return h; }
}
