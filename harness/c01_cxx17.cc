// C01, the kinds of data that need C++17: std::array, std::tuple, enum class
// FLAGS: -std=c++17
// CD: fix17.cd fix17.h -nodef pack unpack
#include "h.h"
#include "classdesc_access.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "fix17.h"
#include "fix17.cd"
template <class T, size_t N> void gen(std::array<T,N>& a);
template <class... A> void gen(std::tuple<A...>& t);
#include "fixgen.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
using namespace fix17;
using std::string;
namespace fix17 {void gen(Pt& p) {::gen(p.x); ::gen(p.y);} void gen(Shape& s) {Shape v[]={Shape::circle,Shape::square,Shape::tri}; s=v[h::rnd(3)];}
 void gen(All& a) {int x[3]; for (int& i: x) ::gen(i); a.set(x[0],x[1],x[2]); for (auto& s: a.as) ::gen(s); for (auto& p: a.ap) gen(p); ::gen(std::get<0>(a.tp)); ::gen(std::get<1>(a.tp)); ::gen(std::get<2>(a.tp)); gen(std::get<0>(a.t1)); gen(a.sh);
   a.va.clear(); for (int n=h::rnd(4); n>0; --n) {std::array<short,2> s; ::gen(s[0]); ::gen(s[1]); a.va.push_back(s);} a.mt.clear(); for (int n=h::rnd(4); n>0; --n) {string k; Pt p; ::gen(k); gen(p); a.mt[k]=std::make_tuple((int)h::rnd(),p);} ::gen(a.tail);}
 void gen(Child& c) {gen(static_cast<All&>(c)); ::gen(c.extra);}
}
template <class T, size_t N> void gen(std::array<T,N>& a) {for (auto& x: a) gen(x);}
template <class... A> void gen(std::tuple<A...>& t) {std::apply([](auto&... x) {(gen(x),...);},t);}
template <class T> void rt(const char* nm, int n)
{
  h::section(nm);
  for (int i=0; i<h::scale(n); ++i) {
    T x, y; gen(x); gen(y); T dirty(y), keep(x);
    pack_t b; b<<x; size_t len=b.size(); b<<98765; string d=string(nm)+" "+h::hex(b.data(),b.size());
    CHECK(keep==x,"packing-changes-the-object",d);
    try {b>>y;} catch (const std::exception& e) {h::fail(string("roundtrip-throws-")+nm,d+e.what()); continue;}
    CHECK(y==x,string("roundtrip-")+nm,d);
    CHECK(b.pos()==len,string("consumes-exactly-")+nm,d);
    int t=0; b>>t; CHECK(t==98765,string("following-value-")+nm,d);
    pack_t c(std::move(b)); c.reseto(); T z(dirty); c>>z; CHECK(z==x,string("roundtrip-moved-buffer-")+nm,d);
    if (len) {pack_t s; size_t cut=h::rnd(len); s.packraw(c.data(),cut); T w(dirty); bool threw=false; try {s>>w;} catch (const std::exception&) {threw=true;} CHECK(threw,string("truncated-data-accepted-")+nm,d+" cut="+h::str(cut));}
    h::eval(d);
  }
}
int main()
{
  h::Main m;
  rt<std::array<int,5>>("array<int,5>",60); rt<std::array<string,3>>("array<string,3>",60); rt<std::array<std::array<int,2>,3>>("array of array",60);
  rt<std::tuple<int>>("tuple<int>",40); rt<std::tuple<int,string>>("tuple<int,string>",60); rt<std::tuple<string,int,double,string>>("tuple of 4",60); rt<std::tuple<std::vector<int>,std::tuple<short,string>,bool>>("nested tuple",60);
  rt<std::vector<std::tuple<int,string>>>("vector of tuple",60); rt<std::map<string,std::array<double,2>>>("map of array",60);
  rt<Shape>("enum class",20); rt<Pt>("struct",40); rt<All>("class",100); rt<Child>("derived class",60); rt<std::vector<Child>>("vector of derived",20);
}
