// C04: values packed into an xdr_pack come back, the bytes are those of XDR (RFC 4506), and the buffer is a FIFO of any size
// FLAGS: -std=c++11 -DXDR_PACK -DGEN_LONG32 -I/usr/include/tirpc
// CD: fix1.cd fix1.h -nodef pack unpack
// LIBS: @/xdr_pack.o -ltirpc
#include "h.h"
#include "classdesc_access.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "fix1.h"
#include "fix1.cd"
#include "fixgen.h"
#include "classdesc_epilogue.h"
#include <limits.h>
using namespace classdesc;
using namespace fix;
// ---- the encoding, written independently of classdesc and of the XDR library
struct E {
  string s;
  void w(unsigned long long v, int n) {for (int i=n-1; i>=0; --i) s+=char(v>>(8*i));}
  void raw(const string& x) {s+=x; while (s.size()%4) s+='\0';}
};
void enc(E& e, bool v) {e.w(v,4);}
void enc(E& e, char v) {e.w((long long)v,4);} void enc(E& e, signed char v) {e.w((long long)v,4);} void enc(E& e, unsigned char v) {e.w(v,4);}
void enc(E& e, short v) {e.w((long long)v,4);} void enc(E& e, unsigned short v) {e.w(v,4);} void enc(E& e, int v) {e.w((long long)v,4);} void enc(E& e, unsigned v) {e.w(v,4);}
void enc(E& e, long v) {e.w(v,4);} void enc(E& e, unsigned long v) {e.w(v,4);} void enc(E& e, long long v) {e.w(v,8);} void enc(E& e, unsigned long long v) {e.w(v,8);} void enc(E& e, wchar_t v) {e.w((long long)v,4);}
void enc(E& e, float v) {unsigned u; memcpy(&u,&v,4); e.w(u,4);} void enc(E& e, double v) {unsigned long long u; memcpy(&u,&v,8); e.w(u,8);}
void enc(E& e, const string& v) {e.w(v.size(),8); e.raw(v);}
void enc(E& e, const std::wstring& v) {e.w(v.size(),8); e.raw(string((const char*)v.data(),v.size()*sizeof(wchar_t)));}
void enc(E& e, Colour v) {e.w((long long)(int)v,4);}
template <class T> void encs(E& e, const T& v) {e.w(v.size(),8); for (typename T::const_iterator i=v.begin(); i!=v.end(); ++i) enc(e,*i);}
template <class A, class B> void enc(E& e, const std::pair<A,B>& v);
template <class T> void enc(E& e, const std::list<T>& v); template <class T> void enc(E& e, const std::deque<T>& v); template <class T> void enc(E& e, const std::vector<T>& v);
template <class T> void enc(E& e, const std::set<T>& v); template <class T> void enc(E& e, const std::multiset<T>& v);
template <class K,class T> void enc(E& e, const std::map<K,T>& v); template <class K,class T> void enc(E& e, const std::multimap<K,T>& v);
void enc(E& e, const Mixed::Inner& v) {enc(e,v.a); enc(e,v.b); enc(e,v.c);}
template <class T> void enc(E& e, const Tmpl<T>& v) {enc(e,v.t); enc(e,v.v); enc(e,v.n);}
void enc(E& e, const DerivedT& v) {enc(e,static_cast<const Tmpl<string>&>(v)); enc(e,v.q); enc(e,v.z);}
void enc(E& e, const Level3& v) {enc(e,static_cast<const DerivedT&>(v)); enc(e,v.own);}
template <class T> void enca(E& e, const T* p, size_t n) {for (size_t i=0; i<n; ++i) enc(e,p[i]);}
void enc(E& e, const Arrays& v) {enca(e,&v.a4[0][0][0][0],12); enca(e,&v.a5[0][0][0][0][0],16); enca(e,&v.a6[0][0][0][0][0][0],16); e.raw(string(&v.c3[0][0][0],12)); e.raw(string(&v.c5[0][0][0][0][0],16)); enca(e,&v.s2[0][0],4); enca(e,&v.v3[0][0][0],4); enc(e,v.tail);}
template <class A, class B> void enc(E& e, const std::pair<A,B>& v) {enc(e,v.first); enc(e,v.second);}
template <class T> void enc(E& e, const std::list<T>& v) {encs(e,v);} template <class T> void enc(E& e, const std::deque<T>& v) {encs(e,v);} template <class T> void enc(E& e, const std::vector<T>& v) {encs(e,v);}
template <class T> void enc(E& e, const std::set<T>& v) {encs(e,v);} template <class T> void enc(E& e, const std::multiset<T>& v) {encs(e,v);}
template <class K,class T> void enc(E& e, const std::map<K,T>& v) {encs(e,v);} template <class K,class T> void enc(E& e, const std::multimap<K,T>& v) {encs(e,v);}
static string bytes(const pack_t& b) {return b.size()? string(b.data(),b.size()): string();}
static string slurp(const char* f) {string r; FILE* i=fopen(f,"rb"); int c; while ((c=fgetc(i))!=EOF) r+=(char)c; fclose(i); return r;}

void enc1(E& e, const Mixed& x) {}
void enc1(E& e, const Priv& x) {}
template <class T> void enc1(E& e, const T& x) {enc(e,x);}
template <class T> void file(const T& x, T y, const char* nm, const string& want)
{
  {xdr_pack b("c04.dat","w"); b<<x<<x;}
  CHECK(slurp("c04.dat")==want+want,string("file-bytes-")+nm,nm);
  xdr_pack b("c04.dat","r"); T z(y);
  try {b>>y>>z;} catch (const std::exception& e) {h::fail(string("file-roundtrip-throws-")+nm,e.what()); return;}
  CHECK(y==x && z==x,string("file-roundtrip-")+nm,nm);
  bool threw=false; int t; try {b>>t;} catch (const pack_error&) {threw=true;}
  CHECK(threw,"file-end",nm);
  b.reseto(); T q(z); gen(q); b>>q; CHECK(q==x,string("file-reset-")+nm,nm);
  unlink("c04.dat");
}
template <class T> void rt(const T& x, T y, const char* nm, bool ref=true)
{
  xdr_pack b, c; b<<x; {T n(x); pack(c,"",n);}
  string got=bytes(b), d=string(nm)+" len="+h::str(got.size())+" "+h::hex(got.data(),got.size()<64? got.size(): 64);
  string want=got;
  if (ref) {E e; enc1(e,x); want=e.s; CHECK(got==want,string("encoding-")+nm,d+" wanted "+h::hex(want.data(),want.size()<64? want.size(): 64));}
  CHECK(bytes(c)==got,string("encoding-is-a-function-")+nm,d);
  CHECK(got.size()%4==0,string("multiple-of-4-")+nm,d);
  b<<12345678;
  T dirty(y);
  try {b>>y;} catch (const std::exception& e) {h::fail(string("roundtrip-throws-")+nm,d+" "+e.what()); return;}
  CHECK(y==x,string("roundtrip-")+nm,d);
  CHECK(b.pos()==got.size(),string("consumes-exactly-")+nm,d+" pos="+h::str(b.pos()));
  int t=0; try {b>>t;} catch (const std::exception&) {} CHECK(t==12345678 && b.pos()==b.size() && !b,string("following-value-")+nm,d);
  b.reseto(); T z(dirty); try {unpack(b,"some.name",z);} catch (const std::exception&) {} CHECK(z==x,string("reread-")+nm,d);
  // many in one buffer, far beyond any internal chunk
  if (h::rnd(8)==0) {
    xdr_pack f; int n=1+h::rnd(40); for (int i=0; i<n; ++i) f<<x<<i;
    try {for (int i=0; i<n; ++i) {T w(dirty); int k=-1; f>>w>>k; if (!(w==x) || k!=i) {h::fail(string("many-in-a-row-")+nm,d+" n="+h::str(n)+" i="+h::str(i)); break;}}}
    catch (const std::exception& e) {h::fail(string("many-in-a-row-throws-")+nm,d+" n="+h::str(n)+" size "+h::str(f.size()));}
  }
  if (got.size()>0 && got.size()<600) {
    size_t cut=h::rnd(got.size());
    xdr_pack s; for (size_t i=0; i+4<=cut; i+=4) s.packraw(got.data()+i,4);
    T w(dirty); bool threw=false; try {s>>w;} catch (const std::exception&) {threw=true;}
    CHECK(threw,string("truncated-data-accepted-")+nm,d+" cut="+h::str(cut));
  }
  if (h::rnd(10)==0) file(x,dirty,nm,want);
  h::eval(d);
}
template <class T> void many(int n, const char* nm, bool ref=true) {h::section(nm); for (int i=0; i<h::scale(n); ++i) {T x=T(), y=T(); gen(x); gen(y); rt(x,y,nm,ref);}}
template <class T> void exact(T x) {
  xdr_pack p; p<<1; bool t=false; T y=0;
  bool fits= (long long)x==(long long)(int)x; if (T(-1)>0) fits= (unsigned long long)x==(unsigned)x;
  try {p<<x;} catch (const pack_error&) {t=true;}
  CHECK(t==!fits,"long-beyond-32-bits",h::str(x)); CHECK(p.size()==(t? 4: 8),"long-size",h::str(x));
  if (!t) {int a; p>>a>>y; CHECK(y==x,"long-value",h::str(x)+" "+h::str(y));}
  p<<7; p.reseto(); int a=0,b=0; p>>a; if (!t) p>>y; p>>b; CHECK(a==1 && b==7,"after-long",h::str(x));
  h::eval("long"+h::str(x));
}
int main()
{
  h::Main m; G_MAX=30; G_N=5;
  many<bool>(20,"bool"); many<char>(60,"char"); many<signed char>(60,"signed char"); many<unsigned char>(60,"unsigned char"); many<short>(60,"short"); many<unsigned short>(60,"unsigned short"); many<int>(80,"int"); many<unsigned>(80,"unsigned");
  many<long>(80,"long"); many<unsigned long>(80,"unsigned long"); many<long long>(100,"long long"); many<unsigned long long>(100,"unsigned long long"); many<wchar_t>(40,"wchar_t"); many<float>(80,"float"); many<double>(80,"double");
  many<string>(300,"string"); many<std::wstring>(40,"wstring"); many<Colour>(20,"enum");
  many<std::vector<int> >(60,"vector<int>"); many<std::vector<char> >(40,"vector<char>"); many<std::vector<string> >(60,"vector<string>"); many<std::list<double> >(30,"list"); many<std::deque<string> >(30,"deque");
  many<std::set<string> >(30,"set"); many<std::multiset<int> >(30,"multiset"); many<std::map<string,int> >(30,"map"); many<std::multimap<int,string> >(30,"multimap"); many<std::map<int,std::vector<std::map<string,Mixed::Inner> > > >(30,"nested");
  many<std::pair<int,string> >(30,"pair"); many<Mixed::Inner>(50,"Inner"); many<DerivedT>(30,"DerivedT"); many<Level3>(30,"Level3"); many<Arrays>(60,"Arrays"); many<Priv>(30,"Priv",false); many<Mixed>(100,"Mixed",false);
  h::section("sizes around 1024 and beyond");
  for (size_t n=1000; n<1060; ++n) {string x(n,'x'), y; rt(x,y,"string"); std::vector<char> v(n/4,'c'), w; rt(v,w,"vector<char>");}
  {std::vector<double> v(h::scale(20000)), w; for (size_t i=0; i<v.size(); ++i) v[i]=i; rt(v,w,"vector<double>"); std::vector<string> s(3000,"hello"), u; rt(s,u,"vector<string>"); string b(1000003,'z'), c; rt(b,c,"string");}
  h::section("long");
  for (int i=0; i<h::scale(300); ++i) {exact((long)h::interesting(64)); exact((unsigned long)h::interesting(64));}
  {long v[]={INT_MAX,INT_MIN,(long)INT_MAX+1,(long)INT_MIN-1,-1,0,(long)UINT_MAX,LONG_MIN,LONG_MAX}; for (long x: v) {exact(x); exact((unsigned long)x);}}
  {xdr_pack p; bool t=false; long double z=1; try {p<<z;} catch (const pack_error&) {t=true;} CHECK(t && p.size()==0,"long-double","pack"); t=false; p<<1<<2<<3<<4; try {p>>z;} catch (const pack_error&) {t=true;} CHECK(t && p.pos()==0,"long-double","unpack"); h::eval("long double");}
  h::section("histories of buffer operations");
  for (int it=0; it<h::scale(3000); ++it) {
    string hist, d[2]; size_t pos[2]={0,0}; xdr_pack b[2]; int k=0;
    if (h::rnd(3)==0) {size_t n=h::rnd(3000); b[0].~xdr_pack(); new(&b[0]) xdr_pack(n); hist="xdr_pack("+h::str(n)+")";}
    for (int n=h::rnd(16); n>=0; --n) {
      xdr_pack& p=b[k]; string& s=d[k]; size_t& q=pos[k]; size_t rem=q<s.size()? s.size()-q: 0;
      switch (h::rnd(14)) {
      case 0: case 1: {string x=h::rstr(h::rnd(10)? 40: 3000); hist+=" packraw("+h::str(x.size())+")"; p.packraw(x.data(),x.size()); E e; e.raw(x); s+=e.s; break;}
      case 2: {int x=h::interesting(32); hist+=" <<int"; p<<x; E e; enc(e,x); s+=e.s; break;}
      case 3: {double x=h::rnd(); hist+=" <<double"; p<<x; E e; enc(e,x); s+=e.s; break;}
      case 4: case 5: {
        size_t a=h::rnd(8)? h::rnd(rem+1): h::rnd(4)? rem+1+h::rnd(5): h::rnd(2)? ULONG_MAX-h::rnd(5): 0x100000000ULL+h::rnd(9); size_t need= a>ULONG_MAX-3? ULONG_MAX: (a+3)/4*4; bool fits=need<=rem, t=false;
        hist+=" unpackraw("+h::str(a)+")"; std::vector<char> o(fits? a+8: 64,'~');
        if (!fits && a<100000) o.resize(a+8,'~');
        try {p.unpackraw(&o[0],a);} catch (const pack_error&) {t=true;}
        if (t==fits) h::fail(fits? "spurious-truncation": "truncation-undetected",hist);
        else if (fits) {if (memcmp(&o[0],s.data()+q,a)) h::fail("bytes-delivered",hist); if (memcmp(&o[a],"~~~~~~~~",8)) h::fail("overrun",hist); q+=need;}
        break;}
      case 6: case 7: {
        bool eight=h::rnd(2), t=false; size_t need=eight? 8: 4; bool fits=rem>=need; hist+=eight? " >>long long": " >>int"; long long v=99; int w=99;
        try {if (eight) p>>v; else p>>w;} catch (const pack_error&) {t=true;}
        if (t==fits) h::fail(fits? "spurious-truncation": "truncation-undetected",hist);
        else if (fits) {unsigned long long u=0; for (size_t i=0; i<need; ++i) u=u*256+(unsigned char)s[q+i]; if (eight? (long long)u!=v: (int)u!=w) h::fail("value-delivered",hist); q+=need;}
        break;}
      case 8: hist+=" reseto"; p.reseto(); q=0; break;
      case 9: hist+=" reseti"; p.reseti(); s.clear(); break;
      case 10: {long o=-4*(long)h::rnd(s.size()/4+1); hist+=" seeki("+h::str(o)+")"; p.seeki(o); s.resize(s.size()+o); break;}
      case 11: {long o=4*((long)h::rnd(s.size()/4+2)-(long)(q/4)); if ((long)q+o<0) o=0; hist+=" seeko("+h::str(o)+")"; p.seeko(o); q+=o; break;}
      case 12: if (h::rnd(2)) {hist+=" clear"; p.clear(); s.clear(); q=0;} else {size_t z=4*h::rnd(s.size()/4+1); if (z) {hist+=" resize("+h::str(z)+")"; p.resize(z); s.resize(z);}} break;
      default:
        if (h::rnd(2)) {hist+=" swap"; b[0].swap(b[1]);} else {hist+=" move"; xdr_pack t(std::move(b[0])); b[0]=std::move(b[1]); b[1]=std::move(t);}
        std::swap(d[0],d[1]); std::swap(pos[0],pos[1]);
      }
      hist+=h::str(k)+";";
      for (int j=0; j<2; ++j) {if (bytes(b[j])!=d[j]) h::fail("buffer-contents",hist+" size "+h::str(b[j].size())+" wanted "+h::str(d[j].size())); if (b[j].pos()!=pos[j]) h::fail("buffer-position",hist); if (bool(b[j])!=(pos[j]<d[j].size())) h::fail("operator-bool",hist);}
      k=h::rnd(2);
    }
    h::eval(hist);
  }
  h::section("comparison and copies to other buffers");
  for (int it=0; it<h::scale(100); ++it) {string x, y; gen(x); gen(y); xdr_pack a, b; a<<x; b<<y; E e,f; enc(e,x); enc(f,y); CHECK((a==b)==(e.s==f.s) && (a<b)==(e.s.size()<f.s.size() || (e.s.size()==f.s.size() && e.s<f.s)),"comparison",x+" "+y); h::eval(x+y);}
  h::section("failing device");
  {xdr_pack p("/dev/full","w"); bool t=false; try {std::vector<double> v(10000,1); p<<v; for (int i=0; i<100000; ++i) p<<i;} catch (const pack_error&) {t=true;} CHECK(t,"write-failure-unreported","/dev/full"); h::eval("full");}
  {bool t=false; try {xdr_pack p("/nonexistent/file","r");} catch (const pack_error&) {t=true;} CHECK(t,"open-failure-unreported",""); h::eval("open");}
}
