// instantiates /repo/xml_pack_base.h, xml_unpack_base.h and xml_pack_epilogue.h for opaque element types:
// Elem's own xml_pack/xml_unpack are declared only (contract: one event each)
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include <list>
#include <deque>
#include <set>
#include <map>
struct Elem { int opaque; };
struct Key { int opaque; };
bool operator<(const Elem&, const Elem&);
bool operator<(const Key&, const Key&);
void ccv_xpack(classdesc::xml_pack_t&, const std::string&, const Elem&); void ccv_xunpack(classdesc::xml_unpack_t&, const std::string&, Elem&);
void ccv_xpack(classdesc::xml_pack_t&, const std::string&, const Key&); void ccv_xunpack(classdesc::xml_unpack_t&, const std::string&, Key&);
enum Colour {red, green=5};
namespace classdesc {
  template <> inline std::string typeName<Elem>() {return "space::Elem<some::Param>";}
  template <> inline std::string typeName<Key>() {return "space::Key";}
  template <> inline std::string typeName<Colour>() {return "Colour";}
}
namespace classdesc_access {
#define OPAQUE(E) \
  template<> struct access_xml_pack<E> {template <class U> void operator()(classdesc::xml_pack_t& b,const classdesc::string& d,U& a) {ccv_xpack(b,d,a);}}; \
  template<> struct access_xml_unpack<E> {template <class U> void operator()(classdesc::xml_unpack_t& b,const classdesc::string& d,U& a) {ccv_xunpack(b,d,a);}};
  OPAQUE(Elem)
  OPAQUE(Key)
}
#include "classdesc_epilogue.h"
#define ENTRY(n, ...) \
  void ccv_pack_##n(classdesc::xml_pack_t& b, const std::string& d, __VA_ARGS__& a) {::xml_pack(b,d,a);} \
  void ccv_unpack_##n(classdesc::xml_unpack_t& b, const std::string& d, __VA_ARGS__& a) {::xml_unpack(b,d,a);}
extern "C" {
  ENTRY(elem, Elem)
  ENTRY(vector, std::vector<Elem>)
  ENTRY(list, std::list<Elem>)
  ENTRY(deque, std::deque<Elem>)
  ENTRY(set, std::set<Elem>)
  ENTRY(multiset, std::multiset<Elem>)
  ENTRY(map, std::map<Key,Elem>)
  ENTRY(multimap, std::multimap<Key,Elem>)
  ENTRY(pair, std::pair<Key,Elem>)
  ENTRY(string, std::string)
  ENTRY(cdata, classdesc::CDATA)
  void ccv_pack_enum(classdesc::xml_pack_t& b, const std::string& d, Colour& a) {::xml_pack(b,d,a);}
  void ccv_unpack_enum(classdesc::xml_unpack_t& b, const std::string& d, Colour& a) {using namespace classdesc; ::xml_unpack(b,d,Enum_handle<Colour>(a));}
#define F(n,T) ENTRY(n,T)
  F(int,int) F(unsigned,unsigned) F(short,short) F(ushort,unsigned short) F(long,long) F(ulong,unsigned long) F(llong,long long) F(ullong,unsigned long long)
  F(char,char) F(schar,signed char) F(uchar,unsigned char) F(bool,bool) F(float,float) F(double,double)
  void ccv_pack_arr1(classdesc::xml_pack_t& b, const std::string& s, Elem* a, size_t n) {using namespace classdesc; ::xml_pack(b,s,is_array(),*a,1,n);}
  void ccv_pack_arr2(classdesc::xml_pack_t& b, const std::string& s, Elem* a, size_t n, int m) {using namespace classdesc; ::xml_pack(b,s,is_array(),*a,2,n,m);}
  void ccv_pack_arr3(classdesc::xml_pack_t& b, const std::string& s, Elem* a, size_t n, int m, int p) {using namespace classdesc; ::xml_pack(b,s,is_array(),*a,3,n,m,p);}
  void ccv_pack_arr4(classdesc::xml_pack_t& b, const std::string& s, Elem* a, size_t n, int m, int p, int q) {using namespace classdesc; ::xml_pack(b,s,is_array(),*a,4,n,m,p,q);}
  void ccv_pack_arr5(classdesc::xml_pack_t& b, const std::string& s, Elem* a, size_t n, int m, int p, int q, int r) {using namespace classdesc; ::xml_pack(b,s,is_array(),*a,5,n,m,p,q,r);}
  void ccv_unpack_arr1(classdesc::xml_unpack_t& b, const std::string& s, Elem* a, size_t n) {using namespace classdesc; ::xml_unpack(b,s,is_array(),*a,1,n);}
  void ccv_unpack_arr2(classdesc::xml_unpack_t& b, const std::string& s, Elem* a, size_t n, int m) {using namespace classdesc; ::xml_unpack(b,s,is_array(),*a,2,n,m);}
  void ccv_unpack_arr3(classdesc::xml_unpack_t& b, const std::string& s, Elem* a, size_t n, int m, int p) {using namespace classdesc; ::xml_unpack(b,s,is_array(),*a,3,n,m,p);}
  void ccv_unpack_arr4(classdesc::xml_unpack_t& b, const std::string& s, Elem* a, size_t n, int m, int p, int q) {using namespace classdesc; ::xml_unpack(b,s,is_array(),*a,4,n,m,p,q);}
  void ccv_unpack_arr5(classdesc::xml_unpack_t& b, const std::string& s, Elem* a, size_t n, int m, int p, int q, int r) {using namespace classdesc; ::xml_unpack(b,s,is_array(),*a,5,n,m,p,q,r);}
}
void ccv_quote(std::string& r, char c) {r=classdesc::xml_quote(c);}
void ccv_parse(classdesc::xml_unpack_t& x, std::istream& i) {x.parse(i);}
