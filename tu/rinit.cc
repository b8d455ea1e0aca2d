// instantiates /repo/random_init_base.h and random_init_epilogue.h for opaque element types
// CXXFLAGS: -ffp-contract=off
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <memory>
#include "random_init_base.h"
#include "classdesc_epilogue.h"
struct Elem { int opaque; };
struct Key { int opaque; };
bool operator<(const Elem&, const Elem&);
bool operator<(const Key&, const Key&);
// contracts: give the members of an object random values; the user's hook
void ccv_einit(classdesc::random_init_t&, const std::string&, Elem&); void ccv_einit(classdesc::random_init_t&, const std::string&, Key&);
void ccv_enorm(Elem&); void ccv_enorm(Key&);
namespace classdesc_access {
  template<> struct access_random_init<Elem> {void operator()(classdesc::random_init_t& r,const classdesc::string& d,Elem& a) {ccv_einit(r,d,a);}};
  template<> struct access_random_init<Key> {void operator()(classdesc::random_init_t& r,const classdesc::string& d,Key& a) {ccv_einit(r,d,a);}};
}
namespace classdesc {
  template <> void random_init_normalise(Elem& a) {ccv_enorm(a);}
  template <> void random_init_normalise(Key& a) {ccv_enorm(a);}
}
#include "random_init_epilogue.h"
enum E {e0, e1=5, e2=-7};
namespace classdesc {namespace {
  template <> EnumKey enum_keysData<E>::keysData[]={{"e0",0},{"e1",5},{"e2",-7}};
  template <> EnumKeys<E> enum_keysData<E>::keys(enum_keysData<E>::keysData,3);
}}
typedef classdesc::random_init_t R;
typedef const std::string D;
extern "C" {
  double ccv_rand(R* r) {return r->R::rand();}
#define ENTRY(n, ...) void ccv_ri_##n(R& b, D& d, __VA_ARGS__& a) {::random_init(b,d,a);}
  ENTRY(vector, std::vector<Elem>)
  ENTRY(list, std::list<Elem>)
  ENTRY(deque, std::deque<Elem>)
  ENTRY(set, std::set<Elem>)
  ENTRY(multiset, std::multiset<Elem>)
  ENTRY(map, std::map<Key,Elem>)
  ENTRY(multimap, std::multimap<Key,Elem>)
  ENTRY(pair, std::pair<Key,Elem>)
  ENTRY(elem, Elem) ENTRY(celem, const Elem)
  ENTRY(string, std::string) ENTRY(wstring, std::wstring)
  ENTRY(int,int) ENTRY(unsigned,unsigned) ENTRY(short,short) ENTRY(ushort,unsigned short) ENTRY(long,long) ENTRY(ulong,unsigned long) ENTRY(llong,long long) ENTRY(ullong,unsigned long long)
  ENTRY(char,char) ENTRY(schar,signed char) ENTRY(uchar,unsigned char) ENTRY(bool,bool) ENTRY(wchar,wchar_t) ENTRY(cint,const int) ENTRY(ptr,Elem*)
  ENTRY(excl, classdesc::Exclude<Elem>)
  void ccv_ri_onbase(R& b, D& d, Elem& a) {::random_init_onbase(b,d,a);}
  void ccv_ri_cstatic(R& b, D& d, Elem* a) {::random_init(b,d,classdesc::is_const_static(),a);}
  void ccv_ri_enum(R& b, D& d, E& a) {using namespace classdesc; ::random_init(b,d,Enum_handle<E>(a));}
#define ARR(d, P, A) void ccv_ri_arr##d P {using namespace classdesc; ::random_init(b,s,is_array(),*a,d,A);}
#define X(...) __VA_ARGS__
  ARR(1,(R& b, D& s, Elem* a, size_t n),X(n)) ARR(2,(R& b, D& s, Elem* a, size_t n, int m),X(n,m)) ARR(3,(R& b, D& s, Elem* a, size_t n, int m, int p),X(n,m,p))
  ARR(4,(R& b, D& s, Elem* a, size_t n, int m, int p, int q),X(n,m,p,q)) ARR(5,(R& b, D& s, Elem* a, size_t n, int m, int p, int q, int r),X(n,m,p,q,r)) ARR(6,(R& b, D& s, Elem* a, size_t n, int m, int p, int q, int r, int t),X(n,m,p,q,r,t))
  struct Obj {int pre; Elem m; int post;};
  void ccv_ri_mbr(R& b, D& d, Obj& o) {using namespace classdesc; ::random_init(b,d,o,&Obj::m);}
  void ccv_ri_static(R& b, D& d, Obj& o, Elem* p) {using namespace classdesc; ::random_init(b,d,o,p);}
}
void ccv_layout() {R r;}
