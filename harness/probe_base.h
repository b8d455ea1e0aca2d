// run-time recorder for generated descriptors: what the generated code hands over is compared with what the generator of the class knows
#ifndef PROBE_BASE_H
#define PROBE_BASE_H
#include <cstdarg>
#include <cstring>
#include <typeinfo>
#include <sstream>
#include <vector>
#include "classdesc.h"
namespace classdesc_access { template <class T> struct access_probe; }
namespace rt
{
  template <class T> std::string ptr(const T& x) {std::ostringstream o; o<<(const void*)&reinterpret_cast<const volatile char&>(x); return o.str();}
  template <class T> std::string bytes(const T& x) {std::string r; char b[4]; for (size_t i=0; i<sizeof x; ++i) {snprintf(b,4,"%02x",((const unsigned char*)&x)[i]); r+=b;} return r;}
  template <class T> std::string ty() {return typeid(T).name();}
}
namespace classdesc {
  struct probe_t: std::vector<std::string> {};
  template <class T> void probe(probe_t& t, const string& d, T& a) {t.push_back(d+" ref "+rt::ptr(a)+" "+rt::ty<T>());}
  template <class T> void probe(probe_t& t, const string& d, is_array, T& a, int dims, size_t n, ...)
  {
    std::ostringstream o; o<<d<<" array "<<rt::ptr(a)<<" "<<rt::ty<T>()<<" "<<dims<<":"<<n;
    va_list ap; va_start(ap,n); for (int i=1; i<dims; ++i) o<<","<<va_arg(ap,int); va_end(ap);
    t.push_back(o.str());
  }
  template <class T> void probe(probe_t& t, const string& d, is_const_static, T a) {t.push_back(d+" const_static "+rt::ty<T>());}
  template <class C, class M> void probe(probe_t& t, const string& d, C& c, M m) {t.push_back(d+" member "+rt::ptr(c)+" "+rt::bytes(m)+" "+rt::ty<M>());}
  template <class C, class M> void probe(probe_t& t, const string& d, C& c, is_const_static, M m) {t.push_back(d+" const_static "+rt::ty<M>());}
  template <class R, class... A> void probe(probe_t& t, const string& d, R (* const& f)(A...)) {t.push_back(d+" function "+rt::bytes(f));}
  template <class T> void probe_onbase(probe_t& t, const string& d, T& a) {t.push_back(d+" base "+rt::ptr(a)+" "+rt::ty<T>());}
  template <class C, class B> void probe(probe_t& t, const string& d) {t.push_back(d+" tbase "+rt::ty<B>());}
  template <class C, class B, class M> void probe_type(probe_t&, const string&, M m) {}
  template <class C, class B, class M> void probe_type(probe_t&, const string&, is_const_static, M m) {}
}
using classdesc::probe;
using classdesc::probe_onbase;
using classdesc::probe_type;
namespace rt
{
  typedef std::vector<std::string> V;
  long evals, bad;
  template <class T> void ref(V& v, const char* n, T& x) {v.push_back(std::string("d")+n+" ref "+ptr(x)+" "+ty<T>());}
  template <class T> void base(V& v, T& x, bool onbase) {v.push_back(std::string("d")+(onbase?" base ":" ref ")+ptr(x)+" "+ty<T>());}
  template <class T> void array(V& v, const char* n, T& x, const char* dims) {v.push_back(std::string("d")+n+" array "+ptr(x)+" "+ty<T>()+" "+dims);}
  template <class C, class M> void member(V& v, const char* n, C& c, M m) {v.push_back(std::string("d")+n+" member "+ptr(c)+" "+bytes(m)+" "+ty<M>());}
  template <class F> void function(V& v, const char* n, F f) {v.push_back(std::string("d")+n+" function "+bytes(f));}
  template <class T> void cstatic(V& v, const char* n) {v.push_back(std::string("d")+n+" const_static "+ty<T>());}
  template <class T> void compare(const char* name, T& o, const V& want)
  {
    classdesc::probe_t got; ++evals;
    classdesc_access::access_probe<T>()(got,"d",o);
    for (size_t i=0; i<want.size() || i<got.size(); ++i)
      if (i>=want.size() || i>=got.size() || want[i]!=got[i])
        {
          ++bad;
          printf("FAIL wrong-members class %s: item %d expected '%s', handed over '%s'\n",name,int(i),i<want.size()?want[i].c_str():"nothing more",i<got.size()?got[i].c_str():"nothing more");
          break;
        }
    ++evals;
    classdesc_access::access_probe<T>().template type<T>(got,"d");
  }
}
#endif
