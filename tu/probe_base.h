// a descriptor whose actions are opaque: what the generated code hands over is recorded by the contracts
#ifndef PROBE_BASE_H
#define PROBE_BASE_H
#include "classdesc.h"
namespace classdesc { struct probe_t {int n;}; }
namespace classdesc_access { template <class T> struct access_probe; }
namespace classdesc {
  template <class T> void probe(probe_t&, const string&, T& a);
  template <class T> void probe(probe_t&, const string&, is_array, T& a, int dims, size_t n, ...);
  template <class T> void probe(probe_t&, const string&, is_const_static, T a);
  template <class C, class M> void probe(probe_t&, const string&, C& c, M m);
  template <class C, class M> void probe(probe_t&, const string&, C& c, is_const_static, M m);
  template <class C, class M> void probe(probe_t&, const string&, C& c, is_constructor, M m);
  template <class R, class... A> void probe(probe_t&, const string&, R (* const& f)(A...));
  template <class T> void probe(probe_t&, const string&, is_graphnode, T& a);
  template <class T> void probe(probe_t&, const string&, is_treenode, T& a);
  template <class T> void probe_onbase(probe_t&, const string&, T& a);
  template <class C, class B> void probe(probe_t&, const string&);
  template <class C, class B, class M> void probe_type(probe_t&, const string&, M m);
  template <class C, class B, class M> void probe_type(probe_t&, const string&, is_const_static, M m);
  template <class C, class B, class M> void probe_type(probe_t&, const string&, is_constructor, M m);
}
using classdesc::probe;
using classdesc::probe_onbase;
using classdesc::probe_type;
#define ENTRY(n,...) extern "C" void ccv_d_##n(classdesc::probe_t& t, const classdesc::string& d, __VA_ARGS__& a) {classdesc_access::access_probe<__VA_ARGS__ >()(t,d,a);} \
  extern "C" void ccv_t_##n(classdesc::probe_t& t, const classdesc::string& d) {classdesc_access::access_probe<__VA_ARGS__ >().template type<__VA_ARGS__ >(t,d);}
#endif
