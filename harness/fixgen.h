// random values of the fixture classes (independent of classdesc's random_init)
#ifndef FIXGEN_H
#define FIXGEN_H
#include <limits>
#include <iterator>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <vector>
static int G_ALPHA=256, G_MAX=20, G_N=5;
inline void gen(bool& x) {x=h::rnd(2);}
#define GI(T) inline void gen(T& x) {x=(T)h::interesting(8*sizeof(T));}
GI(char) GI(signed char) GI(unsigned char) GI(short) GI(unsigned short) GI(int) GI(unsigned) GI(long long) GI(unsigned long long) GI(wchar_t)
#ifdef GEN_LONG32
inline void gen(long& x) {x=(int)h::interesting(32);}
inline void gen(unsigned long& x) {x=(unsigned)h::interesting(32);}
#else
GI(long) GI(unsigned long)
#endif
inline void gen(double& x) {x= h::rnd(3)? (double)(long long)h::rnd()/(1+h::rnd(1000)): (h::rnd(2)? 0.1*h::rnd(100): 1e300/(1+h::rnd(9)));}
inline void gen(float& x) {x= h::rnd(3)? (float)(int)h::rnd()/(1+h::rnd(1000)): (h::rnd(2)? 0.1f*h::rnd(100): 1e30f/(1+h::rnd(9)));}
inline void gen(std::string& x) {x=h::rstr(h::rnd(20)? G_MAX: 20*G_MAX,G_ALPHA);}
inline void gen(std::wstring& x) {x.clear(); for (int n=h::rnd(12); n>0; --n) x+=(wchar_t)h::rnd(h::rnd(2)? 0x10ffff: 128);}
template <class T> void gen(std::vector<T>& x);
template <class T> void gen(std::list<T>& x);
template <class T> void gen(std::deque<T>& x);
template <class T> void gen(std::set<T>& x);
template <class T> void gen(std::multiset<T>& x);
template <class K,class T> void gen(std::map<K,T>& x);
template <class K,class T> void gen(std::multimap<K,T>& x);
template <class A, class B> void gen(std::pair<A,B>& x);
template <class A, class B> void gen(std::pair<A,B>& x) {gen(x.first); gen(x.second);}
template <class T> void genseq(T& x) {x.clear(); for (int n=h::rnd(G_N); n>0; --n) {typename T::value_type v; gen(v); x.push_back(v);}}
#ifdef FIX1_H
namespace fix {
  inline void gen(Colour& c) {static const Colour v[]={red,green,blue,violet}; c=v[h::rnd(4)];}
  inline void gen(Priv& p) {int a; ::gen(a); string s; ::gen(s); short x,y,z; ::gen(x); ::gen(y); ::gen(z); char c; ::gen(c); p.set(a,s,x,y,z,c);}
  inline void gen(Mixed::Inner& p) {::gen(p.a); ::gen(p.b); gen(p.c);}
  void gen(Mixed& m);
  template <class T> void gen(Tmpl<T>& x) {using ::gen; gen(x.t); gen(x.v); gen(x.n);}
  inline void gen(DerivedT& x) {using ::gen; gen(static_cast<Tmpl<string>&>(x)); gen(x.q); gen(x.z);}
  inline void gen(Level3& x) {using ::gen; gen(static_cast<DerivedT&>(x)); gen(x.own);}
}
#endif
template <class T> void gen(std::vector<T>& x) {genseq(x);}
template <class T> void gen(std::list<T>& x) {genseq(x);}
template <class T> void gen(std::deque<T>& x) {genseq(x);}
template <class T> void gen(std::set<T>& x) {x.clear(); for (int n=h::rnd(G_N); n>0; --n) {T v; gen(v); x.insert(v);}}
template <class T> void gen(std::multiset<T>& x) {x.clear(); for (int n=h::rnd(G_N); n>0; --n) {T v; gen(v); x.insert(v); if (h::rnd(3)==0) x.insert(v);}}
template <class K,class T> void gen(std::map<K,T>& x) {x.clear(); for (int n=h::rnd(G_N); n>0; --n) {K k; T v; gen(k); gen(v); x[k]=v;}}
template <class K,class T> void gen(std::multimap<K,T>& x) {x.clear(); for (int n=h::rnd(G_N); n>0; --n) {K k; T v; gen(k); gen(v); x.insert(std::make_pair(k,v)); if (h::rnd(3)==0) {gen(v); x.insert(std::make_pair(k,v));}}}
#ifdef FIX1_H
namespace fix {
  inline void gen(Arrays& a) {
    for (unsigned char* p=(unsigned char*)a.a4; p<(unsigned char*)a.a4+sizeof(a.a4); ++p) *p=h::rnd();
    for (unsigned char* p=(unsigned char*)a.a5; p<(unsigned char*)a.a5+sizeof(a.a5); ++p) *p=h::rnd();
    for (unsigned char* p=(unsigned char*)a.a6; p<(unsigned char*)a.a6+sizeof(a.a6); ++p) *p=h::rnd();
#ifndef GEN_PLAIN_TEXT
    for (unsigned char* p=(unsigned char*)a.c3; p<(unsigned char*)a.c3+sizeof(a.c3); ++p) *p=h::rnd();
    for (unsigned char* p=(unsigned char*)a.c5; p<(unsigned char*)a.c5+sizeof(a.c5); ++p) *p=h::rnd();
#endif
    for (int k=0; k<4; ++k) {::gen(a.s2[k/2][k%2]); ::gen(a.v3[0][k/2][k%2]);}
    ::gen(a.tail);
  }
}
namespace fix {
  inline void gen(Mixed& m) {
    using ::gen;
    gen(m.b1); gen(m.b2); gen(m.s); gen(m.flag); gen(m.c); gen(m.sc); gen(m.uc); gen(m.s1); gen(m.us); gen(m.i); gen(m.j); gen(m.u); gen(m.l); gen(m.ul); gen(m.f); gen(m.d); gen(m.col); gen(m.inner);
    for (int k=0; k<4; ++k) gen(m.arr[k]);
    for (int k=0; k<6; ++k) gen(m.arr2[k/3][k%3]);
    for (int k=0; k<8; ++k) {gen(m.arr3[k/4][k/2%2][k%2]);}
#ifndef GEN_PLAIN_TEXT
    for (int k=0; k<8; ++k) gen(m.text[k]);
    for (int k=0; k<12; ++k) gen(m.text2[k/4][k%4]);
#endif
    for (int k=0; k<3; ++k) gen(m.strs[k]);
    for (int k=0; k<2; ++k) {gen(m.inners[k]); gen(m.cols[k]);}
    gen(m.priv); gen(m.vi); gen(m.vs); gen(m.li); gen(m.m); gen(m.mm); gen(m.si); gen(m.ms); gen(m.dq); gen(m.nest); gen(m.vv); gen(m.pr); gen(m.last);
  }
}
#endif
#endif
