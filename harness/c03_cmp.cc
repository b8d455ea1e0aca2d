// C03: comparison of buffers is a total order consistent with equality; deepCmp/deepEq agree with it
// FLAGS: -std=c++98
#include "h.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
using std::string;
using std::vector;
// spec: shorter is less; equal lengths compare as unsigned bytes
static int spec(const string& a, const string& b)
{
  if (a.size()!=b.size()) return a.size()<b.size()? -1: 1;
  for (size_t i=0; i<a.size(); ++i) if ((unsigned char)a[i]!=(unsigned char)b[i]) return (unsigned char)a[i]<(unsigned char)b[i]? -1: 1;
  return 0;
}
static void pair(const string& a, const string& b, size_t pa, size_t pb)
{
  pack_t x, y; x.packraw(a.data(),a.size()); y.packraw(b.data(),b.size());
  vector<char> dum(1024);
  if (pa) x.unpackraw(&dum[0],pa);    // read positions do not matter
  if (pb) y.unpackraw(&dum[0],pb);
  int s=spec(a,b);
  string d="a="+h::hex(a.data(),a.size())+" b="+h::hex(b.data(),b.size())+" cmp="+h::str(x.cmp(y))+" expected "+h::str(s);
  CHECK(x.cmp(y)==s,"cmp",d);
  CHECK(y.cmp(x)==-s,"cmp-antisymmetric",d);
  CHECK((x<y)==(s<0),"less",d);
  CHECK((x>y)==(s>0),"greater",d);
  CHECK((x==y)==(s==0),"equal",d);
  CHECK((x!=y)==(s!=0),"not-equal",d);
  CHECK(x.size()==a.size() && y.size()==b.size() && x.pos()==pa && y.pos()==pb && (a.empty()||memcmp(x.data(),a.data(),a.size())==0) && (b.empty()||memcmp(y.data(),b.data(),b.size())==0),"operands-unchanged",d);
  h::eval(d);
}
template <class T> void deep(const vector<T>& xs, const char* nm)
{
  for (size_t i=0; i<xs.size(); ++i)
    for (size_t j=0; j<xs.size(); ++j) {
      int c=deepCmp(xs[i],xs[j]), r=deepCmp(xs[j],xs[i]); bool e=deepEq(xs[i],xs[j]);
      string d=string(nm)+" values "+h::str(i)+","+h::str(j)+" deepCmp="+h::str(c)+"/"+h::str(r)+" deepEq="+h::str(e);
      CHECK(e==(xs[i]==xs[j]),"deepEq",d);
      CHECK((c==0)==e,"deepCmp-zero",d);
      CHECK(c==-r,"deepCmp-antisymmetric",d);
      CHECK(c>=-1 && c<=1,"deepCmp-range",d);
      pack_t a, b; a<<xs[i]; b<<xs[j];
      CHECK(c==spec(string(a.data(),a.size()),string(b.data(),b.size())),"deepCmp-order",d);
      h::eval(d+nm);
    }
}
int main()
{
  h::Main m;
  h::section("all pairs of short buffers");
  vector<string> s; s.push_back("");
  const unsigned char al[]={0,1,127,128,255};
  for (int i=0; i<5; ++i) {s.push_back(string(1,al[i])); for (int j=0; j<5; ++j) {s.push_back(string(1,al[i])+(char)al[j]);}}
  for (size_t i=0; i<s.size(); ++i) for (size_t j=0; j<s.size(); ++j) pair(s[i],s[j],0,0);
  h::section("random pairs");
  for (int t=0; t<h::scale(4000); ++t) {
    string a=h::rstr(40), b=a;
    switch (h::rnd(5)) {
    case 0: b=h::rstr(40); break;
    case 1: if (!b.empty()) b[h::rnd(b.size())]=(char)h::rnd(256); break;
    case 2: if (!b.empty()) {size_t k=h::rnd(b.size()); b[k]=(char)(b[k]+(h::rnd(2)? 1: 128)); if (k+1<b.size()) b[b.size()-1]=(char)h::rnd(256);} break;
    case 3: b=h::rstr(a.size(),3); b.resize(a.size()); break;
    }
    pair(a,b,h::rnd(a.size()+1),h::rnd(b.size()+1));
  }
  h::section("transitivity");
  for (int t=0; t<h::scale(3000); ++t) {
    pack_t p[3]; string d;
    for (int k=0; k<3; ++k) {string x=h::rstr(4,3); x.resize(h::rnd(2)+2); p[k].packraw(x.data(),x.size()); d+=h::hex(x.data(),x.size())+" ";}
    if (p[0]<p[1] && p[1]<p[2]) CHECK(p[0]<p[2],"transitive",d);
    if (p[0]==p[1] && p[1]==p[2]) CHECK(p[0]==p[2],"transitive-eq",d);
    CHECK((p[0]<p[1])+(p[0]==p[1])+(p[0]>p[1])==1,"trichotomy",d);
    h::eval(d);
  }
  h::section("deepCmp/deepEq");
  {vector<int> v; v.push_back(0); v.push_back(1); v.push_back(-1); v.push_back(256); v.push_back(0x7fffffff); for (int i=0; i<20; ++i) v.push_back((int)h::interesting(32)); deep(v,"int");}
  {vector<string> v; v.push_back(""); for (int i=0; i<20; ++i) v.push_back(h::rstr(6,3)); deep(v,"string");}
  {vector<vector<short> > v(1); for (int i=0; i<20; ++i) {vector<short> w; for (int k=h::rnd(4); k>0; --k) w.push_back((short)h::rnd(3)); v.push_back(w);} deep(v,"vector<short>");}
  {vector<std::map<int,string> > v(1); for (int i=0; i<15; ++i) {std::map<int,string> w; for (int k=h::rnd(4); k>0; --k) w[h::rnd(3)]=h::rstr(2,2); v.push_back(w);} deep(v,"map<int,string>");}
}
