#include "h.h"
#include <string.h>
#include <iterator>
#include <vector>
#include "classdesc.h"
#include "multiArray.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
using std::vector;
using std::string;
typedef vector<size_t> V;
static string sv(const V& v) {string r="("; for (size_t i=0; i<v.size(); ++i) r+=(i? ",":"")+h::str(v[i]); return r+")";}
// oracle: column major; x[0] is the innermost subscript
static size_t lin(const V& d, const V& x) {size_t r=0; for (size_t k=d.size(); k-->0;) r=r*d[k]+x[k]; return r;}
template <class M> struct At {static int& at(M& m, const V& x, size_t k) {auto s=m[x[k]]; return At<decltype(s)>::at(s,x,k-1);} };
template <class T> struct At<MultiArray<T,1> > {static T& at(MultiArray<T,1>& m, const V& x, size_t) {return m[x[0]];}};
template <class M> struct Cat {static const int& at(const M& m, const V& x, size_t k) {auto s=m[x[k]]; const decltype(s)& c=s; return Cat<decltype(s)>::at(c,x,k-1);} };
template <class T> struct Cat<MultiArray<T,1> > {static const T& at(const MultiArray<T,1>& m, const V& x, size_t) {return m[x[0]];}};
// traversal by iterators, innermost last
template <class M> struct Walk {static void go(M& m, vector<int>& out, V& sizes) {sizes.push_back(m.size()); for (typename M::iterator i=m.begin(); i!=m.end(); ++i) {auto s=*i; Walk<decltype(s)>::go(s,out,sizes);}}};
template <class T> struct Walk<MultiArray<T,1> > {static void go(MultiArray<T,1>& m, vector<int>& out, V& sizes) {sizes.push_back(m.size()); for (T* i=m.begin(); i!=m.end(); ++i) out.push_back(*i);}};
template <class M> struct CWalk {static void go(const M& m, vector<int>& out) {for (typename M::const_iterator i=m.begin(); i!=m.end(); ++i) {const auto& s=*i; CWalk<typename std::decay<decltype(s)>::type>::go(s,out);}}};
template <class T> struct CWalk<MultiArray<T,1> > {static void go(const MultiArray<T,1>& m, vector<int>& out) {for (auto i=m.begin(); i!=m.end(); ++i) out.push_back(*i);}};
template <class M> void test(M m, M twin, int* data, const V& d, const char* nm)
{
  size_t n=1; for (size_t k=0; k<d.size(); ++k) n*=d[k];
  string t=string(nm)+" dims="+sv(d);
  CHECK(m.size()==d.back(),"size",t);
  CHECK(m.same(twin) && twin.same(m),"same",t);
  const M& c=m;
  V x(d.size(),0);
  for (size_t i=0; i<n; ++i) {
    size_t q=i; for (size_t k=0; k<d.size(); ++k) {x[k]=q%d[k]; q/=d[k];}
    int& e=At<M>::at(m,x,d.size()-1);
    CHECK(&e==data+lin(d,x),"subscript",t+" x="+sv(x)+" offset "+h::str(&e-data)+" expected "+h::str(lin(d,x)));
    CHECK(&Cat<M>::at(c,x,d.size()-1)==data+lin(d,x),"const-subscript",t+" x="+sv(x));
  }
  vector<int> w, cw; V sizes;
  Walk<M>::go(m,w,sizes); CWalk<M>::go(c,cw);
  bool ok=w.size()==n; for (size_t i=0; ok && i<n; ++i) ok=w[i]==data[i];
  CHECK(ok,"iteration-order",t+" visited "+h::str(w.size())+" of "+h::str(n));
  CHECK(cw==w,"const-iteration",t);
  if (n) {   // writing through one element changes that one only
    size_t i=h::rnd(n), q=i; for (size_t k=0; k<d.size(); ++k) {x[k]=q%d[k]; q/=d[k];}
    vector<int> before(data,data+n); At<M>::at(m,x,d.size()-1)=-1-before[i];
    bool good=true; for (size_t j=0; j<n; ++j) good=good && (j==i? data[j]==-1-before[i]: data[j]==before[j]);
    CHECK(good,"write",t+" x="+sv(x)); data[i]=before[i];
  }
  h::eval(t);
}
template <class M> void iter(M m, int* data, const V& d, const char* nm)
{
  if (m.size()==0) return;
  size_t S=1; for (size_t k=0; k+1<d.size(); ++k) S*=d[k];
  if (S==0) return;
  string t=string(nm)+" dims="+sv(d);
  typedef typename M::iterator I;
  typedef typename M::value_type Sub;
  for (int r=0; r<6; ++r) {
    long pos=0; I it=m.begin(); string ops;
    for (int k=0; k<8; ++k) {
      long n=m.size();
      switch (h::rnd(6)) {
      case 0: if (pos<n) {I r=++it; pos++; ops+=" ++i"; CHECK(r==it,"pre-increment-result",t+ops);} break;
      case 1: if (pos<n) {I old=it; I r=it++; pos++; ops+=" i++"; CHECK(r==old,"post-increment-result",t+ops);} break;
      case 2: if (pos>0) {I r=--it; pos--; ops+=" --i"; CHECK(r==it,"pre-decrement-result",t+ops);} break;
      case 3: if (pos>0) {I old=it; I r=it--; pos--; ops+=" i--"; CHECK(r==old,"post-decrement-result",t+ops);} break;
      case 4: {size_t a=h::rnd(n-pos+1); I r=(it+=a); pos+=a; ops+=" +="+h::str(a); CHECK(r==it,"advance-result",t+ops);} break;
      case 5: {size_t a=h::rnd(n+1); I o=m.begin(); o+=a; CHECK((it==o)==(long(a)==pos) && (it!=o)==(long(a)!=pos),"iterator-equality",t+ops+" vs "+h::str(a));} break;
      }
      Sub expect=m[pos];
      CHECK((*it).same(expect) && (*it).size()==expect.size(),"iterator-position",t+ops+" at "+h::str(pos));
      CHECK((it==m.end())==(pos==n),"end",t+ops);
    }
    h::eval(t+ops);
  }
}
int main()
{
  h::Main mm;
  vector<int> store(5000); for (size_t i=0; i<store.size(); ++i) store[i]=1000+i;
  int* p=&store[0];
  h::section("all small shapes and random ones");
  for (int t=0; t<h::scale(400); ++t) {
    size_t mx= t%3==0? 3: 6;
    V d; for (int k=0; k<5; ++k) d.push_back(h::rnd(12)==0? 0: 1+h::rnd(mx));
    if (t<200) for (int k=0; k<4; ++k) d[k]=d[k]? d[k]: 1;   // only the last extent may be 0 for iteration to make sense
    #define R(n,...) {V e(d.begin(),d.begin()+n); size_t tot=1; for (int k=0; k<n; ++k) tot*=e[k]; bool z=false; for (int k=0; k+1<n; ++k) z=z || e[k]==0; if (!z && tot<store.size()) { \
      MultiArray<int,n> a(p,__VA_ARGS__), b(p,(const size_t*)&e[0]), c(p,&e[0]); \
      test(a,b,p,e,"extents as arguments"); test(b,a,p,e,"extents as array"); test(c,a,p,e,"extents as non-const array"); }}
    R(1,e[0]) R(2,e[0],e[1]) R(3,e[0],e[1],e[2]) R(4,e[0],e[1],e[2],e[3]) R(5,e[0],e[1],e[2],e[3],e[4])
    #undef R
    #define R(n,...) {V e(d.begin(),d.begin()+n); size_t tot=1; for (int k=0; k<n; ++k) tot*=e[k]; if (tot<store.size()) {MultiArray<int,n> a(p,__VA_ARGS__), b(p,(const size_t*)&e[0]); iter(a,p,e,"iterators"); iter(b,p,e,"iterators, extents as array");}}
    R(2,e[0],e[1]) R(3,e[0],e[1],e[2]) R(4,e[0],e[1],e[2],e[3])
  }
  h::section("traits");
  CHECK((is_sequence<MultiArray<int,3> >::value),"is_sequence",""); CHECK((MultiArray<int,3>::rank==3 && MultiArray<int,1>::rank==1),"rank","");
  {int y[6]={0}; MultiArray<int,2> a(p,2,3), b(y,2,3); CHECK(!a.same(b),"same-different-data","");}
}
