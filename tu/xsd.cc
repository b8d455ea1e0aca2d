// instantiates /repo/xsd_generate_base.h for opaque element types: Elem's own members are declared only (contract: one event)
#include "xsd_generate_base.h"
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#if __cplusplus>=201703L
#include <array>
#include <tuple>
#endif
struct Elem { int opaque; };
struct Key { int opaque; };
bool operator<(const Elem&, const Elem&);
bool operator<(const Key&, const Key&);
void ccv_fields(classdesc::xsd_generate_t&, const std::string&, Elem&);
void ccv_fields(classdesc::xsd_generate_t&, const std::string&, Key&);
enum Colour {red, green=5};
namespace classdesc {
  template <> inline std::string typeName<Elem>() {return "space::Elem<some::Param>";}
  template <> inline std::string typeName<Key>() {return "space::Key";}
  template <> inline std::string typeName<Colour>() {return "space::Colour";}
}
namespace classdesc_access {
  template<> struct access_xsd_generate<Elem> {template <class U> void operator()(classdesc::xsd_generate_t& g,const classdesc::string& d,U& a) {ccv_fields(g,d,a);}};
  template<> struct access_xsd_generate<Key> {template <class U> void operator()(classdesc::xsd_generate_t& g,const classdesc::string& d,U& a) {ccv_fields(g,d,a);}};
}
#include "classdesc_epilogue.h"
using classdesc::xsd_generate_t;
#define ENTRY(n, ...) void ccv_##n(xsd_generate_t& g, const std::string& d, __VA_ARGS__& a) {::xsd_generate(g,d,a);}
extern "C" {
  ENTRY(elem, const Elem)
  ENTRY(vector, const std::vector<Elem>) ENTRY(list, const std::list<Elem>) ENTRY(deque, const std::deque<Elem>) ENTRY(set, const std::set<Elem>) ENTRY(multiset, const std::multiset<Elem>)
  ENTRY(map, const std::map<Key,Elem>) ENTRY(multimap, const std::multimap<Key,Elem>) ENTRY(pair, const std::pair<Key,Elem>)
  ENTRY(shared, const classdesc::shared_ptr<Elem>)
  ENTRY(exclude, const classdesc::Exclude<Elem>)
#define F(n,T) ENTRY(n, const T)
  F(bool,bool) F(char,char) F(schar,signed char) F(uchar,unsigned char) F(short,short) F(ushort,unsigned short) F(int,int) F(uint,unsigned) F(long,long) F(ulong,unsigned long)
  F(llong,long long) F(ullong,unsigned long long) F(float,float) F(double,double) F(ldouble,long double) F(string,std::string) F(wstring,std::wstring)
  void ccv_conststatic(xsd_generate_t& g, const std::string& d, Elem& a) {using namespace classdesc; ::xsd_generate(g,d,is_const_static(),a);}
  void ccv_onbase(xsd_generate_t& g, const std::string& d, const Elem& a) {classdesc::xsd_generate_onbase(g,d,a);}
  void ccv_arr1(xsd_generate_t& g, const std::string& s, Elem* a, size_t n) {using namespace classdesc; ::xsd_generate(g,s,is_array(),*a,1,n);}
  void ccv_arr2(xsd_generate_t& g, const std::string& s, Elem* a, size_t n, int m) {using namespace classdesc; ::xsd_generate(g,s,is_array(),*a,2,n,m);}
  void ccv_arr3(xsd_generate_t& g, const std::string& s, Elem* a, size_t n, int m, int p) {using namespace classdesc; ::xsd_generate(g,s,is_array(),*a,3,n,m,p);}
  void ccv_arr4(xsd_generate_t& g, const std::string& s, Elem* a, size_t n, int m, int p, int q) {using namespace classdesc; ::xsd_generate(g,s,is_array(),*a,4,n,m,p,q);}
  void ccv_arr5(xsd_generate_t& g, const std::string& s, Elem* a, size_t n, int m, int p, int q, int r) {using namespace classdesc; ::xsd_generate(g,s,is_array(),*a,5,n,m,p,q,r);}
  bool ccv_isOpen(xsd_generate_t& g, const std::string& t) {return g.isOpen(t);}
  void ccv_addMember(xsd_generate_t& g, const std::string& n, const std::string& t) {g.addMember(n,t);}
  void ccv_addBase(xsd_generate_t& g, const std::string& t) {g.addBase(t);}
  void ccv_addDependency(xsd_generate_t& g, const std::string& n, const std::string& t) {g.addDependency(n,t);}
  void ccv_openType(xsd_generate_t& g, const std::string& n, const std::string& t) {g.openType(n,t);}
  void ccv_closeType(xsd_generate_t& g) {g.closeType();}
  void ccv_defineType(xsd_generate_t& g, const std::string& n, const std::string& t) {g.defineType(n,t);}
  void ccv_currentDescription(std::string& r, const xsd_generate_t& g) {r=g.currentDescription();}
#if __cplusplus>=201703L
  void ccv_stdarray(xsd_generate_t& g, const std::string& d, const std::array<Elem,7>& a) {classdesc::xsd_generate(g,d,a);}
  void ccv_tuple(xsd_generate_t& g, const std::string& d, const std::tuple<Key,Elem>& a) {classdesc::xsd_generate(g,d,a);}
#endif
}
