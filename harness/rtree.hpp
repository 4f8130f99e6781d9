#ifdef IRVC
// libstdc++'s tree operations without the balancing (order and contents are the same)
namespace std {
_Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x ) throw() {
  if ( x->_M_right ) { x = x->_M_right; while ( x->_M_left ) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while ( x == y->_M_right ) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
_Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x ) throw() {
  if ( x->_M_color == _S_red and x->_M_parent->_M_parent == x ) return x->_M_right;
  if ( x->_M_left ) { x = x->_M_left; while ( x->_M_right ) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while ( x == y->_M_left ) { x = y; y = y->_M_parent; }
  return y;
}
void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h ) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if ( left ) { p->_M_left = x; if ( p == &h ) { h._M_parent = x; h._M_right = x; } else if ( p == h._M_left ) h._M_left = x; }
  else { p->_M_right = x; if ( p == h._M_right ) h._M_right = x; }
}
}
#endif
