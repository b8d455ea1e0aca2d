// instantiates typeName (/repo/classdesc.h, typeName_epilogue.h, function.h) for opaque component types
#include "classdesc.h"
#include "multiArray.h"
#include <sstream>
#include <tuple>
struct Elem {int opaque;};
struct Key {int opaque;};
namespace classdesc {
  template <> std::string typeName<Elem>();    // contract: any text
  template <> std::string typeName<Key>();
}
#include "classdesc_epilogue.h"
using namespace classdesc;
#define N(n,...) void ccv_##n(std::string& r) {r=typeName<__VA_ARGS__ >();}
typedef Elem A3[3]; typedef Elem A7_3[7][3]; typedef Elem A2_7_3[2][7][3]; typedef Elem* AP5[5];
extern "C" {
  N(void,void) N(bool,bool) N(char,char) N(short,short) N(int,int) N(long,long) N(schar,signed char) N(uchar,unsigned char) N(ushort,unsigned short) N(uint,unsigned) N(ulong,unsigned long)
  N(llong,long long) N(ullong,unsigned long long) N(float,float) N(double,double) N(ldouble,long double) N(string,std::string) N(wstring,std::wstring) N(char16,char16_t) N(char32,char32_t)
  N(elem,Elem) N(const,const Elem) N(ptr,Elem*) N(ptrc,const Elem*) N(cptr,Elem*const) N(cptrc,const Elem*const) N(ptrptr,Elem**) N(ref,Elem&) N(cref,const Elem&) N(rref,Elem&&) N(refptr,Elem*&)
  N(a3,A3) N(a7_3,A7_3) N(a2_7_3,A2_7_3) N(ap5,AP5) N(ca3,const A3) N(ca7_3,const A7_3)
  N(shared,shared_ptr<Elem>) N(weak,weak_ptr<Elem>) N(unique,std::unique_ptr<Elem>) N(auto,std::auto_ptr<Elem>) N(array,std::array<Elem,12>)
  N(vector,std::vector<Elem>) N(list,std::list<Elem>) N(deque,std::deque<Elem>) N(set,std::set<Elem>) N(multiset,std::multiset<Elem>) N(uset,std::unordered_set<Elem>) N(umultiset,std::unordered_multiset<Elem>)
  N(map,std::map<Key,Elem>) N(multimap,std::multimap<Key,Elem>) N(umap,std::unordered_map<Key,Elem>) N(umultimap,std::unordered_multimap<Key,Elem>) N(pair,std::pair<Key,Elem>)
  N(tuple0,std::tuple<>) N(tuple1,std::tuple<Elem>) N(tuple3,std::tuple<Elem,Key,Elem*>) N(tuplen,std::tuple<std::tuple<Key>,std::vector<Elem> >)
  N(handle,Enum_handle<Elem>) N(exclude,Exclude<Elem>) N(cvector,const std::vector<const Elem*>) N(vvector,std::vector<std::pair<Key,std::list<Elem*> > >)
  void ccv_var3(std::string& r) {r=varTn<Elem,Key,Elem>();}
  void ccv_var1(std::string& r) {r=varTn<Elem>();}
  void ccv_basename(std::string& r) {r=classdesc::basename<Elem>();}
}
