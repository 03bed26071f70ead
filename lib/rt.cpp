// bitcode support: library functions that libstdc++ keeps out of line
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <vector>
template class std::basic_string<char>;
namespace std {
// red-black tree primitives (plain, order-preserving reimplementation: balance is irrelevant to semantics,
// but the header node bookkeeping must be exact)
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right;
  _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_right) t = t->_M_right; rm = t; } }
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
}
}
#include <list>
#include <map>
#include <unordered_map>
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 8011}; for (size_t x : p) if (x >= n) { _M_next_resize = (size_t)(x * 1.0); return x; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t want = ne + ni > nb ? ne + ni : nb; if (want < ne * 2) want = ne * 2; size_t b = _M_next_bkt(want + 1); return {b > nb, b}; }
  return {false, 0};
}
}
}
