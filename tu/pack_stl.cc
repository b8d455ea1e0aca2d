// instantiates /repo/pack_stl.h (and the pack machinery beneath it) for opaque element types.
// Elem/Key have no visible structure: their own pack/unpack are declared only (contract: access_pack/access_unpack).
#include "pack_base.h"
#include "classdesc_epilogue.h"
#include "pack_stl.h"
#include <list>
#include <deque>
#include <set>
#include <map>
struct Elem { int opaque; };
struct Key { int opaque; };
bool operator<(const Elem&, const Elem&);
bool operator==(const Elem&, const Elem&);
bool operator!=(const Elem&, const Elem&);
bool operator==(const Key&, const Key&);
bool operator!=(const Key&, const Key&);
bool operator<(const Key&, const Key&);
// contracts: append one element token / consume one element token (into a, or skipped)
void ccv_epack(classdesc::pack_t&, const Elem&); void ccv_eunpack(classdesc::pack_t&, Elem&); void ccv_eunpack(classdesc::pack_t&, const Elem&);
void ccv_epack(classdesc::pack_t&, const Key&); void ccv_eunpack(classdesc::pack_t&, Key&); void ccv_eunpack(classdesc::pack_t&, const Key&);
namespace classdesc_access {
#define OPAQUE(E) \
  template<> struct access_pack<E> {template <class U> void operator()(classdesc::pack_t& b,const classdesc::string&,U& a) {ccv_epack(b,a);}}; \
  template<> struct access_unpack<E> {template <class U> void operator()(classdesc::pack_t& b,const classdesc::string&,U& a) {ccv_eunpack(b,a);}};
  OPAQUE(Elem)
  OPAQUE(Key)
}
#include "pack_epilogue.h"
// entry points: one call each, nothing else
#define ENTRY(n, ...) \
  void ccv_pack_##n(classdesc::pack_t& b, const std::string& d, const __VA_ARGS__& a) {::pack(b,d,a);} \
  void ccv_unpack_##n(classdesc::pack_t& b, const std::string& d, __VA_ARGS__& a) {::unpack(b,d,a);} \
  void ccv_cunpack_##n(classdesc::pack_t& b, const std::string& d, const __VA_ARGS__& a) {::unpack(b,d,a);}
extern "C" {
  ENTRY(vector, std::vector<Elem>)
  ENTRY(list, std::list<Elem>)
  ENTRY(deque, std::deque<Elem>)
  ENTRY(set, std::set<Elem>)
  ENTRY(multiset, std::multiset<Elem>)
  ENTRY(map, std::map<Key,Elem>)
  ENTRY(multimap, std::multimap<Key,Elem>)
  ENTRY(pair, std::pair<Key,Elem>)
  ENTRY(string, std::string)
#define F(n,T) ENTRY(n,T) void ccv_in_##n(classdesc::pack_t& b, const T& a) {b<<a;} void ccv_out_##n(classdesc::pack_t& b, T& a) {b>>a;}
  F(int,int) F(unsigned,unsigned) F(short,short) F(ushort,unsigned short) F(long,long) F(ulong,unsigned long) F(llong,long long) F(ullong,unsigned long long)
  F(char,char) F(schar,signed char) F(uchar,unsigned char) F(bool,bool) F(float,float) F(double,double) F(wchar,wchar_t)
}
// makes the class layout and the vtable available in the IR
void ccv_layout() {classdesc::pack_t b;}
// arrays as emitted by generated descriptors (2nd and higher dimensions are passed as int)
extern "C" {
#define ARR(d, P, A) \
  void ccv_pack_arr##d P(Elem) {using namespace classdesc; ::pack(b,s,is_array(),*a,d,A);} \
  void ccv_unpack_arr##d P(Elem) {using namespace classdesc; ::unpack(b,s,is_array(),*a,d,A);} \
  void ccv_pack_char##d P(char) {using namespace classdesc; ::pack(b,s,is_array(),*a,d,A);} \
  void ccv_unpack_char##d P(char) {using namespace classdesc; ::unpack(b,s,is_array(),*a,d,A);}
#define X(...) __VA_ARGS__
#define P1(T) (classdesc::pack_t& b, const std::string& s, T* a, size_t n)
#define P2(T) (classdesc::pack_t& b, const std::string& s, T* a, size_t n, int m)
#define P3(T) (classdesc::pack_t& b, const std::string& s, T* a, size_t n, int m, int p)
#define P4(T) (classdesc::pack_t& b, const std::string& s, T* a, size_t n, int m, int p, int q)
#define P5(T) (classdesc::pack_t& b, const std::string& s, T* a, size_t n, int m, int p, int q, int r)
#define P6(T) (classdesc::pack_t& b, const std::string& s, T* a, size_t n, int m, int p, int q, int r, int t)
  ARR(1,P1,X(n)) ARR(2,P2,X(n,m)) ARR(3,P3,X(n,m,p)) ARR(4,P4,X(n,m,p,q)) ARR(5,P5,X(n,m,p,q,r)) ARR(6,P6,X(n,m,p,q,r,t))
  enum TestEnum {e0, e1=5, e2=-7};
  void ccv_pack_enum(classdesc::pack_t& b, const std::string& d, TestEnum& a) {using namespace classdesc; ::pack(b,d,Enum_handle<TestEnum>(a));}
  void ccv_unpack_enum(classdesc::pack_t& b, const std::string& d, TestEnum& a) {using namespace classdesc; ::unpack(b,d,Enum_handle<TestEnum>(a));}
  void ccv_pack_excl(classdesc::pack_t& b, const std::string& d, const classdesc::Exclude<Elem>& a) {::pack(b,d,a);}
  void ccv_unpack_excl(classdesc::pack_t& b, const std::string& d, classdesc::Exclude<Elem>& a) {::unpack(b,d,a);}
  void ccv_pack_cstatic(classdesc::pack_t& b, const std::string& d, Elem* a) {using namespace classdesc; ::pack(b,d,is_const_static(),a);}
  void ccv_unpack_cstatic(classdesc::pack_t& b, const std::string& d, Elem* a) {using namespace classdesc; ::unpack(b,d,is_const_static(),a);}
  // member-pointer forms used by generated descriptors
  struct Obj {int pre; Elem m; int post;};
  void ccv_pack_mbr(classdesc::pack_t& b, const std::string& d, Obj& o) {using namespace classdesc; ::pack(b,d,o,&Obj::m);}
  void ccv_unpack_mbr(classdesc::pack_t& b, const std::string& d, Obj& o) {using namespace classdesc; ::unpack(b,d,o,&Obj::m);}
  void ccv_pack_static(classdesc::pack_t& b, const std::string& d, Obj& o, Elem* p) {using namespace classdesc; ::pack(b,d,o,p);}
  void ccv_unpack_static(classdesc::pack_t& b, const std::string& d, Obj& o, Elem* p) {using namespace classdesc; ::unpack(b,d,o,p);}
}
extern "C" {
  int ccv_deepcmp(const Elem& x, const Elem& y) {return classdesc::deepCmp(x,y);}
  bool ccv_deepeq(const Elem& x, const Elem& y) {return classdesc::deepEq(x,y);}
}
