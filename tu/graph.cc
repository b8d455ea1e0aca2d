// instantiates /repo/pack_graph.h and pack_base.h's pointer code for an opaque node type (its packing is a contract)
#include "pack_base.h"
#include "pack_graph.h"
struct Node {int v; Node(); ~Node();};
namespace classdesc_access
{
  template <> struct access_pack<Node> {void operator()(classdesc::pack_t&, const classdesc::string&, const Node&);};
  template <> struct access_unpack<Node> {void operator()(classdesc::pack_t&, const classdesc::string&, Node&);};
}
#include "classdesc_epilogue.h"
using namespace classdesc;
extern "C" {
  void ccv_vtable(pack_t* o) {new(o) pack_t;}
  void ccv_pack_graph(pack_t& b, Node*& a) {pack(b,string(),is_graphnode(),a);}
  void ccv_unpack_graph(pack_t& b, Node*& a) {unpack(b,string(),is_graphnode(),a);}
  void ccv_pack_tree(pack_t& b, Node*& a) {pack(b,string(),is_treenode(),a);}
  void ccv_unpack_tree(pack_t& b, Node*& a) {unpack(b,string(),is_treenode(),a);}
  void ccv_pack_ptr(pack_t& b, Node*& a) {b<<a;}
  void ccv_unpack_ptr(pack_t& b, Node*& a) {b>>a;}
  void ccv_psr_copy(PtrStoreRef* o, const PtrStoreRef& x) {new(o) PtrStoreRef(x);}
  void ccv_psr_new(PtrStoreRef* o, PtrStore<Node>* x) {new(o) PtrStoreRef(x);}
  void ccv_psr_assign(PtrStoreRef& o, const PtrStoreRef& x) {o=x;}
  void ccv_psr_dtor(PtrStoreRef& o) {o.~PtrStoreRef();}
}
