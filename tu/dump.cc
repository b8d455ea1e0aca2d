// instantiates /repo/dump_base.h and dump_epilogue.h; Elem's own description is declared only (contract: a text that depends on path and value)
#include "dump_base.h"
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <memory>
struct Elem { int opaque; };
struct Key { int opaque; };
bool operator<(const Elem&, const Elem&);
bool operator<(const Key&, const Key&);
void ccv_xdump(classdesc::dump_t&, const std::string&, Elem&);
void ccv_xdump(classdesc::dump_t&, const std::string&, Key&);
enum Colour {red, green=5};
namespace classdesc {
  template <> inline std::string typeName<Colour>() {return "Colour";}
}
namespace classdesc_access {
#define OPAQUE(E) template<> struct access_dump<E> {template <class U> void operator()(classdesc::dump_t& b,const classdesc::string& d,U& a) {ccv_xdump(b,d,a);}};
  OPAQUE(Elem)
  OPAQUE(Key)
}
#include "classdesc_epilogue.h"
using classdesc::dump_t; using std::string; using classdesc::is_array;
#define ENTRY(n, ...) void ccv_dump_##n(dump_t& o, const string& d, __VA_ARGS__& a) {::dump(o,d,a);}
extern "C" {
  void ccv_format(std::ostream& o, const string& d) {classdesc::format(o,d);}
  ENTRY(elem, Elem)
  ENTRY(vector, std::vector<Elem>)
  ENTRY(list, std::list<Elem>)
  ENTRY(deque, std::deque<Elem>)
  ENTRY(set, std::set<Elem>)
  ENTRY(multiset, std::multiset<Elem>)
  ENTRY(ivector, std::vector<int>)
  ENTRY(ilist, std::list<int>)
  ENTRY(ideque, std::deque<int>)
  ENTRY(iset, std::set<int>)
  ENTRY(map, std::map<Key,Elem>)
  ENTRY(multimap, std::multimap<Key,Elem>)
  ENTRY(mapie, std::map<int,Elem>)
  ENTRY(mapii, std::map<int,int>)
  ENTRY(pair, std::pair<Key,Elem>)
  ENTRY(pairie, std::pair<int,Elem>)
  ENTRY(pairii, std::pair<int,int>)
  ENTRY(string, std::string)
  ENTRY(cint, const int)
  ENTRY(celem, const Elem)
#define F(n,T) ENTRY(n,T)
  F(int,int) F(unsigned,unsigned) F(short,short) F(ushort,unsigned short) F(long,long) F(ulong,unsigned long) F(llong,long long) F(ullong,unsigned long long)
  F(char,char) F(schar,signed char) F(uchar,unsigned char) F(bool,bool) F(float,float) F(double,double)
  void ccv_dump_enum(dump_t& o, const string& d, Colour& a) {using namespace classdesc; ::dump(o,d,Enum_handle<Colour>(a));}
  void ccv_dump_exclude(dump_t& o, const string& d, classdesc::Exclude<Elem>& a) {using namespace classdesc; dump(o,d,a);}
  void ccv_dump_method(dump_t& o, const string& d, Elem& a, void (Elem::*m)()) {using namespace classdesc; dump(o,d,a,m);}
  void ccv_dump_base(dump_t& o, const string& d, Elem& a) {dump_onbase(o,d,a);}
  void ccv_dump_static(dump_t& o, const string& d, int a) {using namespace classdesc; dump(o,d,is_const_static(),a);}
  void ccv_dump_ostream(std::ostream& o, const string& d, const Elem& a) {dump(o,d,a);}
#define ARRS(s,T) \
  void ccv_dump_##s##1(dump_t& o, const string& s, T* a, size_t n) {using namespace classdesc; ::dump(o,s,is_array(),*a,1,n);} \
  void ccv_dump_##s##2(dump_t& o, const string& s, T* a, size_t n, int m) {using namespace classdesc; ::dump(o,s,is_array(),*a,2,n,m);} \
  void ccv_dump_##s##3(dump_t& o, const string& s, T* a, size_t n, int m, int p) {using namespace classdesc; ::dump(o,s,is_array(),*a,3,n,m,p);} \
  void ccv_dump_##s##4(dump_t& o, const string& s, T* a, size_t n, int m, int p, int q) {using namespace classdesc; ::dump(o,s,is_array(),*a,4,n,m,p,q);} \
  void ccv_dump_##s##5(dump_t& o, const string& s, T* a, size_t n, int m, int p, int q, int r) {using namespace classdesc; ::dump(o,s,is_array(),*a,5,n,m,p,q,r);}
#if __cplusplus>=201103L
  ENTRY(shared, std::shared_ptr<Elem>)
  ENTRY(sharedint, std::shared_ptr<int>)
#endif
  ARRS(arr, Elem)
  ARRS(iarr, int)
}
