// Red-black tree primitives of libstdc++ (std::map), so that trees whose nodes
// hold symbolic payload can be executed symbolically.  A plain binary search
// tree with header node has the same observable behaviour.
#include <map>
namespace std {
typedef _Rb_tree_node_base B;
static B* inc(B* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  B* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static B* dec(B* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { B* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  B* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
B* _Rb_tree_increment(B* x) throw() { return inc(x); }
const B* _Rb_tree_increment(const B* x) throw() { return inc(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() { return dec(x); }
const B* _Rb_tree_decrement(const B* x) throw() { return dec(const_cast<B*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
B* _Rb_tree_rebalance_for_erase(B* const z, B& h) throw() {
  auto replace = [&](B* u, B* v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (h._M_left == z) h._M_left = (h._M_right == z) ? &h : inc(z);
  if (h._M_right == z) h._M_right = (h._M_left == &h) ? &h : dec(z);
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    B* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
}
#include <list>
namespace std { namespace __detail {
typedef _List_node_base L;
void L::_M_hook(L* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void L::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void L::_M_transfer(L* const f, L* const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
  L* const t = this->_M_prev;
  this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
} }
