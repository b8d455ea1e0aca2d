// instantiates /repo/polyAccessXMLPack.h and polyXMLBase.h for opaque classes
#include <new>
#include <memory>
#include <sstream>
#include "polyXMLBase.h"
struct Node {int v; Node(); ~Node();};
// a hierarchy of which every member is a contract
struct XB: public classdesc::PolyXMLBase
{
  typedef int Type;
  virtual int type() const; static XB* create(int);
  virtual void xml_pack(classdesc::xml_pack_t&, const classdesc::string&) const; virtual void xml_unpack(classdesc::xml_unpack_t&, const classdesc::string&); virtual ~XB();
};
// one class of a hierarchy of polyXMLBase.h
struct X1: public classdesc::PolyXML<X1> {int v; X1(); ~X1();};
#define ACC(T) \
  template <> struct access_xml_pack<T> {void operator()(classdesc::xml_pack_t&, const classdesc::string&, const T&);}; \
  template <> struct access_xml_unpack<T> {void operator()(classdesc::xml_unpack_t&, const classdesc::string&, T&);};
namespace classdesc_access {ACC(Node) ACC(X1)}
#include "classdesc_epilogue.h"
using namespace classdesc;
#define ENTRY(n,...) \
  void ccv_pack_##n(xml_pack_t& b, const string& d, __VA_ARGS__& a) {::xml_pack(b,d,a);} \
  void ccv_packc_##n(xml_pack_t& b, const string& d, const __VA_ARGS__& a) {::xml_pack(b,d,a);} \
  void ccv_unpack_##n(xml_unpack_t& b, const string& d, __VA_ARGS__& a) {::xml_unpack(b,d,a);} \
  void ccv_unpackc_##n(xml_unpack_t& b, const string& d, const __VA_ARGS__& a) {using namespace classdesc; xml_unpack_smart_ptr(b,d,a);}
extern "C" {
  ENTRY(sp,shared_ptr<Node>)
  ENTRY(up,std::unique_ptr<Node>)
  ENTRY(spb,shared_ptr<XB>)
  ENTRY(upb,std::unique_ptr<XB>)
  void ccv_x1pack(X1& x, xml_pack_t& b, const string& d) {x.PolyXML<X1>::xml_pack(b,d);}
  void ccv_x1unpack(X1& x, xml_unpack_t& b, const string& d) {x.PolyXML<X1>::xml_unpack(b,d);}
}
