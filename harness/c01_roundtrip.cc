// C01: unpacking what was packed restores the value, for every supported kind of data, into any previous state of the target
// FLAGS: -std=c++98
// CD: fix1.cd fix1.h -nodef pack unpack
#include "h.h"
#include "classdesc_access.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "fix1.h"
#include "fix1.cd"
#include "fixgen.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
using namespace fix;
static string bytes(const pack_t& b) {return b.size()? string(b.data(),b.size()): string();}
// x: value, y: target in an arbitrary earlier state
template <class T> void rt(const T& x, T y, const char* nm)
{
  pack_t b, c; T keep(x);
  b<<x;
  string d=string(nm)+" "+h::hex(b.data(),b.size())+" len="+h::str(b.size());
  CHECK(keep==x,"packing-changes-the-object",d);
  c<<keep; CHECK(bytes(b)==bytes(c),"packing-is-a-function-of-the-value",d);
  CHECK(b.pos()==0,"packing-moves-the-read-position",d);
  b<<12345678;                                  // something follows
  T dirty(y);
  try {b>>y;} catch (const std::exception& e) {h::fail(string("roundtrip-throws-")+nm,d+" "+e.what()); return;}
  CHECK(y==x,string("roundtrip-")+nm,d);
  CHECK(b.pos()==c.size(),string("consumes-exactly-")+nm,d+" pos="+h::str(b.pos()));
  int t=0; b>>t; CHECK(t==12345678 && b.pos()==b.size(),string("following-value-")+nm,d);
  // descriptor function form, and re-reading after reseto
  b.reseto(); T z(dirty); unpack(b,"some.name",z); CHECK(z==x,string("unpack-function-")+nm,d);
  pack_t e; T xx(x); pack(e,"n",xx); CHECK(bytes(e)==bytes(c),string("pack-function-")+nm,d);
  // deepEq
  CHECK(deepEq(x,y),"deepEq-after-roundtrip",d);
  // two in a row
  pack_t f; f<<x<<dirty; T p(dirty), q(x); f>>p>>q; CHECK(p==x && q==dirty,string("two-in-a-row-")+nm,d);
  // every proper prefix is reported as too short
  if (c.size()>0 && c.size()<400) {
    size_t cut=h::rnd(c.size());
    pack_t s; s.packraw(c.data(),cut); T w(dirty); bool threw=false;
    try {s>>w;} catch (const pack_error&) {threw=true;} catch (const std::exception&) {threw=true;}
    CHECK(threw,string("truncated-data-accepted-")+nm,d+" cut="+h::str(cut));
  }
  h::eval(d);
}
// unpacking into a const object leaves it alone but consumes the same data
template <class T> void cst(const T& x, const T& y, const char* nm)
{
  pack_t b; b<<x<<7; T keep(y); const T k(y);
  unpack(b,"",k);
  int t=0; b>>t;
  string d=string(nm)+" "+h::hex(b.data(),b.size());
  CHECK(k==keep,string("const-target-changed-")+nm,d);
  CHECK(t==7,string("const-target-consumption-")+nm,d);
  h::eval("const "+d);
}
template <class T> void file(const T& x, T y, const char* nm)
{
  {pack_t b("c01.dat","w"); b<<x<<x;}
  pack_t b("c01.dat","r"); T z(y);
  try {b>>y>>z;} catch (const std::exception& e) {h::fail(string("file-roundtrip-throws-")+nm,e.what()); return;}
  CHECK(y==x && z==x,string("file-roundtrip-")+nm,nm);
  bool threw=false; int t; try {b>>t;} catch (const pack_error&) {threw=true;}
  CHECK(threw,"file-end",nm);
  unlink("c01.dat");
  h::eval(string("file ")+nm+h::str(h::evals));
}
template <class T> void many(int n, const char* nm)
{
  h::section(nm);
  for (int i=0; i<h::scale(n); ++i) {T x, y; gen(x); gen(y); rt(x,y,nm); if (i%10==0) file(x,y,nm);}
}
template <class T> void manyc(int n, const char* nm) {many<T>(n,nm); for (int i=0; i<h::scale(n/4+1); ++i) {T x, y; gen(x); gen(y); cst(x,y,nm);}}
template <class T> void fl(const char* nm)
{
  T v[]={T(0),-T(0),T(1),T(-1),std::numeric_limits<T>::max(),std::numeric_limits<T>::min(),std::numeric_limits<T>::infinity(),-std::numeric_limits<T>::infinity(),std::numeric_limits<T>::denorm_min(),std::numeric_limits<T>::quiet_NaN()};
  for (int i=0; i<10; ++i) {pack_t b; b<<v[i]; T y=3; b>>y; CHECK(memcmp(&y,&v[i],sizeof(T)==16? 10: sizeof(T))==0,string("float-bits-")+nm,h::str(v[i])); h::eval(nm+h::str(v[i]));}
}
int main()
{
  h::Main m;
  manyc<bool>(20,"bool"); manyc<char>(40,"char"); manyc<signed char>(20,"signed char"); manyc<unsigned char>(20,"unsigned char");
  manyc<short>(30,"short"); manyc<unsigned short>(30,"unsigned short"); manyc<int>(60,"int"); manyc<unsigned>(60,"unsigned");
  manyc<long>(60,"long"); manyc<unsigned long>(60,"unsigned long"); manyc<long long>(60,"long long"); manyc<unsigned long long>(60,"unsigned long long");
  manyc<wchar_t>(20,"wchar_t"); manyc<double>(60,"double"); manyc<float>(60,"float");
  fl<float>("float"); fl<double>("double"); fl<long double>("long double");
  manyc<string>(200,"string"); many<std::wstring>(60,"wstring");
  manyc<std::vector<int> >(100,"vector<int>"); manyc<std::list<string> >(60,"list<string>"); manyc<std::deque<double> >(60,"deque<double>");
  manyc<std::set<int> >(60,"set<int>"); manyc<std::multiset<string> >(60,"multiset<string>"); manyc<std::map<string,int> >(60,"map<string,int>"); manyc<std::multimap<int,string> >(60,"multimap<int,string>");
  many<std::vector<std::vector<int> > >(60,"vector<vector<int>>"); many<std::map<int,std::vector<std::map<string,Mixed::Inner> > > >(60,"nested containers");
  many<std::pair<int,string> >(40,"pair"); many<std::vector<std::pair<string,std::list<short> > > >(40,"vector<pair>");
  many<Mixed::Inner>(40,"nested class"); many<Priv>(40,"private members"); many<Tmpl<int> >(30,"template<int>"); many<Tmpl<string> >(30,"template<string>");
  many<DerivedT>(40,"derived from template"); many<Level3>(40,"two levels of inheritance"); many<std::vector<Mixed> >(10,"vector of classes"); many<Mixed>(150,"class with everything");
  many<Arrays>(60,"arrays of up to 6 dimensions"); many<std::map<Colour,Colour> >(30,"enum map");
  h::section("enum"); {Colour v[]={red,green,blue,violet}; for (int i=0; i<4; ++i) for (int j=0; j<4; ++j) rt(v[i],v[j],"enum");}
  h::section("excluded members keep their value");
  for (int i=0; i<h::scale(40); ++i) {
    Mixed x, y; gen(x); gen(y); x.ex=(int)h::rnd(); int k=(int)h::rnd(); y.ex=k; pack_t b; b<<x; size_t s=b.size(); b>>y; CHECK(y.ex==k && x.ex!=k+1,"excluded-member-touched",h::str(k));
    x.ex=0; pack_t c; c<<x; CHECK(c.size()==s,"excluded-member-packed",h::str(s)); h::eval("excl"+h::str(i)+h::str(k));
  }
  h::section("Exclude wrapper"); {classdesc::Exclude<string> e; e="abc"; pack_t b; b<<e; CHECK(b.size()==0,"exclude-packed",""); b>>e; CHECK(static_cast<string&>(e)=="abc","exclude-unpacked","");}
  h::section("Iterator");
  for (int i=0; i<h::scale(40); ++i) {
    std::list<int> l, l2; int n=h::rnd(10); for (int k=0; k<n; ++k) {l.push_back(k); l2.push_back(100+k);}
    int at=h::rnd(n+1), sent=h::rnd(), got; classdesc::Iterator<std::list<int> > it(l), it2(l2); std::list<int>::iterator q=l.begin(); std::advance(q,at); it=q; it2=l2.begin(); if (n && h::rnd(2)) it2=--l2.end();
    pack_t b; b<<it<<sent; b>>it2>>got;
    CHECK(std::distance(l2.begin(),std::list<int>::iterator(it2))==at && it==q,"iterator-position",h::str(at)+" of "+h::str(n)); CHECK(got==sent && b.pos()==b.size(),"iterator-stream",h::str(at)+" of "+h::str(n)); h::eval("it"+h::str(at)+","+h::str(n));
    if (at<n) CHECK(*it2==100+at && *it==at,"iterator-target",h::str(at)+" of "+h::str(n));
    std::vector<string> v(n,"x"), v2(n,"y"); const std::vector<string>& cv=v; classdesc::Iterator<std::vector<string> > vi(v), vj(v2); vi=v.begin()+at; vj=v2.begin();
    pack_t c; c<<vi; c>>vj; CHECK(std::vector<string>::iterator(vj)-v2.begin()==at,"iterator-vector",h::str(at)+" of "+h::str(n)); (void)cv;
    std::set<int> st, st2; for (int k=0; k<n; ++k) {st.insert(k); st2.insert(k*7);} classdesc::Iterator<std::set<int> > si(st), sj(st2); std::set<int>::iterator w=st.begin(); std::advance(w,at); si=w; sj=st2.end();
    pack_t e; e<<si; e>>sj; CHECK(std::distance(st2.begin(),std::set<int>::iterator(sj))==at,"iterator-set",h::str(at)+" of "+h::str(n));
    classdesc::Iterator<std::list<int> > none; pack_t f; f<<none<<sent; f>>none>>got; CHECK(got==sent && f.pos()==f.size(),"iterator-none","");
  }
  h::section("ordering of a long mixed stream");
  for (int t=0; t<h::scale(60); ++t) {
    pack_t b; std::vector<int> kinds; std::vector<string> ss; std::vector<int> is; std::vector<std::vector<double> > ds;
    for (int i=h::rnd(40); i>0; --i) {int k=h::rnd(3); kinds.push_back(k); if (k==0) {string s=h::rstr(30); ss.push_back(s); b<<s;} else if (k==1) {int v=h::rnd(); is.push_back(v); b<<v;} else {std::vector<double> v(h::rnd(5),h::rnd(9)); ds.push_back(v); b<<v;}}
    size_t a=0,e=0,g=0; bool ok=true;
    for (size_t i=0; i<kinds.size(); ++i) {if (kinds[i]==0) {string s("dirty"); b>>s; ok=ok && s==ss[a++];} else if (kinds[i]==1) {int v; b>>v; ok=ok && v==is[e++];} else {std::vector<double> v(3,1); b>>v; ok=ok && v==ds[g++];}}
    CHECK(ok && b.pos()==b.size(),"mixed-stream",h::str(kinds.size())); h::eval("mixed"+h::str(t)+","+h::str(b.size()));
  }
}
