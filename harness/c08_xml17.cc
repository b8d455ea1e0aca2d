// C08: XML round trip, C++17: tuples, floating point special values, as well as everything of c08_xml.cc
// FLAGS: -std=c++17
// CD: fix1.cd fix1.h -nodef -typeName xml_pack xml_unpack
#include "h.h"
#include <tuple>
#include "classdesc_access.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "fix1.h"
#include "fix1.cd"
#include "fixgen.h"
#include "classdesc_epilogue.h"
#define C08_MORE
void more();
#include "c08_body.h"
template <class T> void special()
{
  T v[]={std::numeric_limits<T>::infinity(),-std::numeric_limits<T>::infinity(),std::numeric_limits<T>::quiet_NaN(),std::numeric_limits<T>::max(),-std::numeric_limits<T>::max(),std::numeric_limits<T>::min(),T(0),-T(0),T(1e-5),std::numeric_limits<T>::epsilon()};
  const char* want[]={"INF","-INF","NaN"};
  for (int i=0; i<10; ++i) {
    std::ostringstream o; o.precision(22); xml_pack_t p(o); p<<v[i];
    string d=o.str(); T y=3; read(d,y,"root",h::rnd(2));
    CHECK(memcmp(&y,&v[i],sizeof(T)==16? 10: sizeof(T))==0 || (v[i]!=v[i] && y!=y),"floating-point-special",d+" -> "+h::str(y));
    if (i<3) CHECK(d==string("<root>")+want[i]+"</root>","floating-point-special-text",d);
    h::eval(d);
  }
}
struct TupleMember {std::tuple<int,string,Mixed::Inner> t; int after; TupleMember(): after(0) {}};
void more()
{
  h::section("floating point special values"); special<float>(); special<double>(); special<long double>();
  h::section("tuples");
  for (int i=0; i<h::scale(60); ++i) {
    std::tuple<int,string,Colour,int,std::vector<int>,string,Mixed::Inner,double> x,y; gen(std::get<0>(x)); gen(std::get<1>(x)); fix::gen(std::get<2>(x)); gen(std::get<3>(x)); gen(std::get<4>(x)); gen(std::get<5>(x)); fix::gen(std::get<6>(x)); gen(std::get<7>(x));
    std::get<1>(y)="old"; std::get<4>(y).push_back(3);
    rt(x,y,"tuple");
    std::tuple<string> a,b("z"); gen(std::get<0>(a)); rt(a,b,"tuple1");
    std::vector<std::tuple<int,string> > va,vb; for (int n=h::rnd(4); n>0; --n) {int k; string s; gen(k); gen(s); va.push_back({k,s});} vb.resize(2); rt(va,vb,"vector<tuple>");
  }
  rt(std::tuple<>(),std::tuple<>(),"tuple0");
}
