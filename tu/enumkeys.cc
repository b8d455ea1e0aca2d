// instantiates the enum symbol tables of /repo/classdesc.h
#include <new>
#include "pack_base.h"
using namespace classdesc;
enum E {e0};
typedef EnumKeys<E> K;
// what classdesc emits for an enum (see access_* emission in classdesc.cc); the table itself is symbolic
namespace classdesc {namespace {
  template <> EnumKey enum_keysData<E>::keysData[]={{"e0",0}};
  template <> K enum_keysData<E>::keys(enum_keysData<E>::keysData,1);
  template <> int enumKey<E>(const std::string& x) {return int(enum_keysData<E>::keys(x));}
  template <> std::string enumKey<E>(int x) {return enum_keysData<E>::keys(x);}
}}
extern "C" {
  void ccv_ctor(K* o, const EnumKey* data, int size) {new(o) K(data,size);}
  E ccv_val(const K& k, const std::string& s) {return k(s);}
  void ccv_sym(std::string* o, const K& k, int v) {new(o) std::string(k(v));}
  void ccv_symE(std::string* o, const K& k, E v) {new(o) std::string(k(v));}
  bool ccv_hasE(const K& k, E v) {return k.has(v);}
  bool ccv_hasS(const K& k, const std::string& s) {return k.has(s);}
  void ccv_tostring(std::string* o, E v) {new(o) std::string(to_string(v));}
  void ccv_handlestr(std::string* o, E& v) {new(o) std::string(std::string(enum_handle(v)));}
  int ccv_handleint(E& v) {return enum_handle(v);}
  void ccv_setstr(E& v, const std::string& s) {enum_handle(v)=s;}
  void ccv_setint(E& v, int x) {enum_handle(v)=x;}
  void ccv_setE(E& v, E x) {enum_handle(v)=x;}
}
