// C17: BinStream against an independent byte-level model
// FLAGS: -std=c++11 -DXDR_PACK -I/usr/include/tirpc
// LIBS: @/xdr_pack.o -ltirpc
#include "h.h"
#include "pack_base.h"
#include "pack_stl.h"
#include <list>
#include <deque>
#include <set>
#include <map>
#include <string.h>
#include <unistd.h>
#include "classdesc_epilogue.h"
using namespace classdesc;
#undef CHECK
using std::string;
using h::rnd;
#include <stdarg.h>
static void CHECK(bool c, const char* key, ...) {if (c) {return;} va_list ap; va_start(ap,key); char b[2000]; vsnprintf(b,sizeof(b),key,ap); va_end(ap); string k(key); size_t e=k.find_first_of(":%"); for (size_t i=0; i<k.size(); ++i) if (k[i]==' ') k[i]='-'; h::fail(k.substr(0,e),b);}
static void CASE(const string& s) {h::eval(s);}
struct P3 {char a; int b; double c; bool operator==(const P3& x) const {return !memcmp(this,&x,sizeof(x));} bool operator<(const P3& x) const {return b<x.b;}};
struct P5 {char a[5]; bool operator==(const P5& x) const {return !memcmp(this,&x,sizeof(x));} bool operator<(const P5& x) const {return memcmp(this,&x,sizeof(x))<0;}};
struct Gen
{
  template <class T> void raw(T& x) {unsigned char* p=(unsigned char*)&x; for (size_t i=0; i<sizeof(T); ++i) p[i]=(unsigned char)rnd();}
  void operator()(char& x) {raw(x);} void operator()(short& x) {raw(x);} void operator()(int& x) {raw(x);} void operator()(long& x) {raw(x);} void operator()(unsigned long& x) {raw(x);}
  void operator()(P3& x) {raw(x);} void operator()(P5& x) {raw(x);}
  void operator()(double& x) {x=(double)(int)rnd()/7;} void operator()(float& x) {x=(float)(int)rnd()/3;} void operator()(bool& x) {x=rnd()%2;}
  template <class T, size_t N> void operator()(T (&x)[N]) {for (size_t i=0; i<N; ++i) (*this)(x[i]);}
  template <class T> void seq(T& x) {x.clear(); size_t n=rnd()%6; if (rnd()%40==0) n=300; for (size_t i=0; i<n; ++i) {typename T::value_type v; (*this)(v); x.push_back(v);}}
  template <class T> void operator()(std::vector<T>& x) {seq(x); if (rnd()%500==0) {x.resize(70000+rnd()%3); for (size_t i=0; i<x.size(); i+=1+rnd()%99) (*this)(x[i]);}} template <class T> void operator()(std::list<T>& x) {seq(x);} template <class T> void operator()(std::deque<T>& x) {seq(x);}
  template <class T> void set(T& x) {x.clear(); size_t n=rnd()%6; for (size_t i=0; i<n; ++i) {typename T::value_type v; (*this)(v); x.insert(v); if (rnd()%3==0) x.insert(v);}}
  template <class T> void operator()(std::set<T>& x) {set(x);} template <class T> void operator()(std::multiset<T>& x) {set(x);}
  template <class T> void map(T& x) {x.clear(); size_t n=rnd()%6; for (size_t i=0; i<n; ++i) {typename T::key_type k; typename T::mapped_type v; (*this)(k); if (rnd()%2) memset((void*)&k,0,sizeof(k)-1); (*this)(v); x.insert(std::make_pair(k,v)); if (rnd()%3==0) {(*this)(v); x.insert(std::make_pair(k,v));}}}
  template <class K, class T> void operator()(std::map<K,T>& x) {map(x);} template <class K, class T> void operator()(std::multimap<K,T>& x) {map(x);}
};
// the model: raw bytes, each piece padded to a multiple of four in an xdr_pack
struct Model
{
  string s; bool xdr;
  Model(bool xdr): xdr(xdr) {}
  void put(const void* p, size_t n) {s.append((const char*)p,n); if (xdr) while (s.size()%4) s+='\0';}
  template <class T> void val(const T& x) {put(&x,sizeof(x));}
  template <class T> void cont(const T& x) {size_t n=x.size(); put(&n,8); for (typename T::const_iterator i=x.begin(); i!=x.end(); ++i) val(*i);}
  template <class T> void operator()(const T& x) {val(x);}
  template <class T> void operator()(const std::vector<T>& x) {size_t n=x.size(); put(&n,8); if (n) put(&x[0],n*sizeof(T));}
  template <class T> void operator()(const std::list<T>& x) {cont(x);} template <class T> void operator()(const std::deque<T>& x) {cont(x);}
  template <class T> void operator()(const std::set<T>& x) {cont(x);} template <class T> void operator()(const std::multiset<T>& x) {cont(x);}
  template <class K, class T> void operator()(const std::map<K,T>& x) {cont(x);} template <class K, class T> void operator()(const std::multimap<K,T>& x) {cont(x);}
};
template <class T> bool eq(const T& a, const T& b) {return a==b;}
template <class T, size_t N> bool eq(const T (&a)[N], const T (&b)[N]) {for (size_t i=0; i<N; ++i) if (!eq(a[i],b[i])) return false; return true;}
struct Op {virtual void gen()=0; virtual void write(BinStream&)=0; virtual void model(Model&)=0; virtual void read(BinStream&)=0; virtual bool same()=0; virtual const char* name()=0; virtual ~Op() {}};
template <class T> struct OpT: public Op
{
  T a, b; const char* n; OpT(const char* n): n(n) {}
  void gen() {Gen g; g(a); g(b);}    // b: what the target holds before
  void write(BinStream& s) {BinStream& r=s<<a; CHECK(&r==&s,"<< returns the stream");}
  void model(Model& m) {m(const_cast<const T&>(a));}
  void read(BinStream& s) {BinStream& r=s>>b; CHECK(&r==&s,">> returns the stream");}
  bool same() {return eq(a,b);}
  const char* name() {return n;}
};
typedef int A3[3]; typedef char A23[2][3];
#define OP(...) new OpT<__VA_ARGS__>(#__VA_ARGS__)
typedef std::map<int,P3> MIP; typedef std::map<short,char> MSC; typedef std::multimap<int,int> MMI; typedef std::map<P5,double> MPD;
static std::vector<Op*> ops;
template <class P> void history(P& p, BinStream& s, bool xdr)
{
  size_t n=1+rnd()%5;
  std::vector<Op*> seq; string what;
  for (size_t i=0; i<n; ++i) seq.push_back(ops[rnd()%ops.size()]);
  std::set<Op*> used; std::vector<Op*> u;
  for (size_t i=0; i<n; ++i) if (used.insert(seq[i]).second) u.push_back(seq[i]);
  Model m(xdr);
  for (size_t i=0; i<u.size(); ++i) {u[i]->gen(); what+=string(u[i]->name())+" "; u[i]->write(s); u[i]->model(m);}
  CASE(what+m.s.substr(0,5000));
  CHECK(p.size()==m.s.size() && (m.s.empty() || !memcmp(p.data(),m.s.data(),m.s.size())),"bytes written: %s",what.c_str());
  for (size_t i=0; i<u.size(); ++i) {u[i]->read(s); CHECK(u[i]->same(),"value restored: %s in %s%s",u[i]->name(),what.c_str(),xdr? "(xdr)":"");}
  CHECK(p.pos()==p.size(),"consumes exactly what was written: %s",what.c_str());
}
// a stream cut short anywhere raises an exception
template <class P> void truncated(bool xdr)
{
  Op* o=ops[rnd()%ops.size()]; o->gen();
  P full; {BinStream s(full); o->write(s);}
  if (!full.size()) return;
  size_t cut=rnd()%full.size(); if (xdr) cut-=cut%4;
  P part; part.packraw(full.data(),cut);
  CASE(string("cut ")+o->name()+string(full.data(),std::min<size_t>(cut,5000)));
  bool thrown=false; BinStream s(part);
  try {o->read(s);} catch (const std::exception&) {thrown=true;}
  CHECK(thrown,"truncated %s at %d of %d",o->name(),int(cut),int(full.size()));
}
template <class P> void corrupt()
{
  const size_t sizes[]={5,1000000,size_t(1)<<40,size_t(1)<<61,(size_t(1)<<62)+1,size_t(-1)/2,size_t(-1)};
  for (size_t k=0; k<sizeof(sizes)/sizeof(sizes[0]); ++k)
    {
      P p; BinStream s(p); s<<sizes[k]<<1;
      std::vector<int> v; std::vector<P3> w; std::list<int> l; std::set<int> t;
      bool th=false; try {s>>v;} catch (const std::exception&) {th=true;} CHECK(th,"size of vector beyond the data");
      p.reseto(); th=false; try {s>>w;} catch (const std::exception&) {th=true;} CHECK(th,"size of vector beyond the data (P3)");
      p.reseto(); th=false; try {s>>l;} catch (const std::exception&) {th=true;} CHECK(th,"size of list beyond the data");
      p.reseto(); th=false; try {s>>t;} catch (const std::exception&) {th=true;} CHECK(th,"size of set beyond the data");
      CASE("corrupt");
    }
}
int main(int argc, char** argv)
{
  h::Main m;
  Op* all[]={OP(char),OP(short),OP(int),OP(long),OP(unsigned long),OP(float),OP(double),OP(bool),OP(P3),OP(P5),OP(A3),OP(A23),
    OP(std::vector<char>),OP(std::vector<int>),OP(std::vector<double>),OP(std::vector<P3>),OP(std::vector<P5>),
    OP(std::list<int>),OP(std::list<char>),OP(std::list<P5>),OP(std::deque<P3>),OP(std::deque<short>),OP(std::set<int>),OP(std::set<P5>),OP(std::multiset<short>),OP(MIP),OP(MSC),OP(MMI),OP(MPD)};
  ops.assign(all,all+sizeof(all)/sizeof(all[0]));
  string dir="/tmp/c17."+std::to_string((long)getpid()), f=dir;
  for (int i=0; i<h::scale(2000); ++i)
    {
      {pack_t p; BinStream s(p); history(p,s,false);}
      {xdr_pack p; BinStream s(p); history(p,s,true);}
      {BinStreamT<pack_t> s; history(s.thePack,s,false);}
      if (i%4==0) {BinStreamT<xdr_pack> s; history(s.thePack,s,true);}
      truncated<pack_t>(false); truncated<xdr_pack>(true);
    }
  corrupt<pack_t>(); corrupt<xdr_pack>();
  // files
  for (int i=0; i<h::scale(60); ++i)
    for (int xdr=0; xdr<2; ++xdr)
      {
        std::vector<Op*> u; size_t n=1+rnd()%5; string what;
        for (size_t k=0; k<n; ++k) {Op* o=ops[rnd()%ops.size()]; bool dup=false; for (size_t j=0; j<u.size(); ++j) dup|=u[j]==o; if (!dup) u.push_back(o);}
        if (xdr) {BinStreamT<xdr_pack> w(f.c_str(),"w"); for (size_t k=0; k<u.size(); ++k) {u[k]->gen(); what+=string(u[k]->name())+" "; u[k]->write(w);}}
        else {BinStreamT<pack_t> w(f.c_str(),"w"); for (size_t k=0; k<u.size(); ++k) {u[k]->gen(); what+=string(u[k]->name())+" "; u[k]->write(w);}}
        CASE("file "+what+std::to_string(i));
        if (xdr) {BinStreamT<xdr_pack> r(f.c_str(),"r"); for (size_t k=0; k<u.size(); ++k) {u[k]->read(r); CHECK(u[k]->same(),"value restored from file (xdr): %s in %s",u[k]->name(),what.c_str());}}
        else {BinStreamT<pack_t> r(f.c_str(),"r"); for (size_t k=0; k<u.size(); ++k) {u[k]->read(r); CHECK(u[k]->same(),"value restored from file: %s in %s",u[k]->name(),what.c_str());}}
      }
  unlink(f.c_str());
  return 0;
}
