#include "xmlref.h"
#include "xmltree.h"
#include <fstream>
using namespace classdesc; using namespace fix;
// values that survive: floating point numbers are written with the stream's precision, here the full one
template <class T> string write(const T& x, bool pretty, const string& root, const string& schema="")
{
  std::ostringstream o; o.precision(17);
  xml_pack_t p(o,schema); p.prettyPrint=pretty;
  if (root=="root" && h::rnd(2)) p<<x; else {T y(x); ::xml_pack(p,root,y);}
  return o.str();
}
template <class T> void read(const string& doc, T& y, const string& root, int how)
{
  if (how==0) {std::istringstream i(doc); xml_unpack_t u(i); if (root=="root") u>>y; else ::xml_unpack(u,root,y);}
  else if (how==1) {std::istringstream i(doc); xml_unpack_t u; u.missingException=true; u.parse(i); ::xml_unpack(u,root,y);}
  else {
    FILE* f=fopen("c08.xml","wb"); fwrite(doc.data(),1,doc.size(),f); fclose(f);
    if (how==2) {f=fopen("c08.xml","rb"); xml_unpack_t u(f); fclose(f); ::xml_unpack(u,root,y);}
    else {xml_unpack_t u("c08.xml"); ::xml_unpack(u,root,y);}
    unlink("c08.xml");
  }
}
template <class T> void rt(const T& x, const T& y0, const char* nm)
{
  bool pretty=h::rnd(2); string root= h::rnd(2)? "root": "some"; int how=h::rnd(8)<6? h::rnd(2): 2+h::rnd(2);
  T y(y0), keep(x);
  string d=string(nm)+(pretty? " pretty": "")+" how="+h::str(how)+" ";
  string doc;
  try {doc=write(x,pretty,root);} catch (const std::exception& e) {h::fail(string("writing-throws-")+nm,d+e.what()); return;}
  CHECK(keep==x,"writing-changes-the-object",d);
  d+=doc;
  try {read(doc,y,root,how);} catch (const std::exception& e) {h::fail(string("reading-throws-")+nm,d+" "+e.what()); return;}
  CHECK(y==x,string("roundtrip-")+nm,d);
  // reading the same database again, into another object, delivers the same
  h::eval(d);
}
template <class T> void rt(const T& x, const T& y0, const char* nm);
template <class T> struct Box {};   // unused
template <class T> void many(int n, const char* nm) {h::section(nm); for (int i=0; i<h::scale(n); ++i) {T x=T(), y=T(); gen(x); gen(y); rt(x,y,nm);}}

// ---------------------------------------------------------------- documents with members missing, in another order, laid out differently
namespace doc {
  using xr::Node;
  inline string layout() {
    string r; 
    for (int n=h::rnd(4)? 0: h::rnd(4); n>0; --n)
      switch (h::rnd(6)) {
      case 0: r+=" "; break; case 1: r+="\n\t"; break; case 2: r+="<!-- <a>&\"b' ->-->"; break; case 3: r+="<?pi <x> \"?>"; break; case 4: r+="\r\n"; break; default: r+="<!---->"; break;
      }
    return r;
  }
  inline string text(const string& t, bool plain) {
    string r;
    for (size_t i=0; i<t.size(); ++i) {
      unsigned char c=t[i];
      if (plain) {r+=xr::quote(string(1,t[i])); continue;}
      switch (h::rnd(7)) {
      case 0: if (c<128) {char b[16]; sprintf(b,h::rnd(2)? "&#%d;": "&#x%x;",c); r+=b; break;}
      case 1: if (c!=']' && c!='>') {size_t n=1+h::rnd(4); string s; for (; n>0 && i<t.size() && t[i]!=']' && t[i]!='>'; --n,++i) s+=t[i]; --i; r+="<![CDATA["+s+"]]>"; break;}
      case 2: if (i && h::rnd(3)==0) r+="<!-- x -->";
      default: r+= c=='\'' || c=='"'? (h::rnd(2)? string(1,t[i]): xr::quote(string(1,t[i]))): c=='>' && i==0? string(1,t[i]): xr::quote(string(1,t[i]));
      }
    }
    return r;
  }
  inline string attrs() {
    string r;
    if (h::rnd(4)==0) {r+=" id=\"5\""; if (h::rnd(2)) r+="\n  x = 'a\"&lt;>b' "; if (h::rnd(3)==0) r+=" empty=''";}
    return r;
  }
  inline string write(const Node& n) {
    bool leaf=n.kids.empty();
    string t= n.text=="\1none\1"? "": n.text;
    if (leaf && t.empty() && h::rnd(2)) return "<"+n.name+attrs()+(h::rnd(2)? "/>": " />");
    string r="<"+n.name+attrs()+">";
    if (leaf && n.text!="\1none\1") r+=text(t,h::rnd(2));
    else {for (size_t i=0; i<n.kids.size(); ++i) r+=layout()+write(n.kids[i]); r+=layout();}
    return r+"</"+n.name+(h::rnd(5)? "": " ")+">";
  }
  inline string prolog() {
    string r;
    if (h::rnd(3)==0) r="<?xml version=\"1.0\" encoding='UTF-8'?>\n";
    r+=layout(); if (h::rnd(6)==0) r+="<!DOCTYPE root [<!ELEMENT root (#PCDATA)> <!-- -->]>\n"; return r+layout();
  }
}
struct Keep {Mixed v;};
#define FIELDS(F) F(b1) F(b2) F(s) F(flag) F(c) F(sc) F(uc) F(s1) F(us) F(i) F(j) F(u) F(l) F(ul) F(f) F(d) F(col) F(inner) F(vi) F(vs) F(li) F(m) F(mm) F(si) F(ms) F(dq) F(nest) F(vv) F(pr) F(last) F(priv)
template <class T, size_t N> void cp(T (&a)[N], const T (&b)[N]) {for (size_t i=0; i<N; ++i) a[i]=b[i];}
template <class T, size_t N, size_t M> void cp(T (&a)[N][M], const T (&b)[N][M]) {for (size_t i=0; i<N; ++i) cp(a[i],b[i]);}
template <class T, size_t N, size_t M, size_t K> void cp(T (&a)[N][M][K], const T (&b)[N][M][K]) {for (size_t i=0; i<N; ++i) cp(a[i],b[i]);}
#define ARRAYS(F) F(arr) F(arr2) F(arr3) F(text) F(strs) F(inners) F(cols) F(text2)
static void partial()
{
  h::section("partial documents");
  for (int it=0; it<h::scale(600); ++it) {
    Mixed x, y; gen(x); gen(y);
    Mixed want(y), got(y);
    xr::Node n("root"); xt::tree(n,x);
    // fields dropped at random; the expectation takes x's value for the fields left
    std::vector<xr::Node> kept; std::set<string> names; bool missing=false;
    unsigned p=1+h::rnd(4);
    for (size_t k=0; k<n.kids.size(); ++k) if (h::rnd(4)<p) {kept.push_back(n.kids[k]); names.insert(n.kids[k].name);} else if (n.kids[k].name!="e") missing=true;
#define F(m) if (names.count(#m)) want.m=x.m;
    FIELDS(F)
#undef F
#define F(m) if (names.count(#m)) cp(want.m,x.m);
    ARRAYS(F)
#undef F
    // parts of nested members dropped too
    for (size_t k=0; k<kept.size(); ++k) {
      if (kept[k].name=="inner" && h::rnd(2)) {size_t j=h::rnd(3); kept[k].kids.erase(kept[k].kids.begin()+j); missing=true; if (j==0) want.inner.a=y.inner.a; else if (j==1) want.inner.b=y.inner.b; else want.inner.c=y.inner.c;}
      if (kept[k].name=="arr" && h::rnd(2)) {size_t j=h::rnd(5); if (j<4) missing=true; kept[k].kids.resize(j<4? j: 4); for (; j<4; ++j) want.arr[j]=y.arr[j];}
      if (kept[k].name=="pr" && h::rnd(2)) {size_t j=h::rnd(2); missing=true; kept[k].kids.erase(kept[k].kids.begin()+j); if (j==0) want.pr.first=y.pr.first; else want.pr.second=y.pr.second;}
      if (kept[k].name=="text" && h::rnd(3)==0) kept[k].add("char","z");   // more elements than the array has
    }
    // order of the members does not matter, unknown elements are ignored
    if (h::rnd(2)) for (size_t k=kept.size(); k>1; --k) std::swap(kept[k-1],kept[h::rnd(k)]);
    if (h::rnd(3)==0) {xr::Node u("unknown","text"); kept.insert(kept.begin()+h::rnd(kept.size()+1),u);}
    if (h::rnd(3)==0) {xr::Node u("unknown2"); u.add("b1","77"); u.add("s").add("last","-5"); kept.insert(kept.begin()+h::rnd(kept.size()+1),u);}
    n.kids=kept;
    string d=doc::prolog()+doc::write(n);
    try {std::istringstream i(d); xml_unpack_t u(i); u>>got;} catch (const std::exception& e) {h::fail("partial-throws",string(e.what())+" "+d); continue;}
    if (!(got==want)) {
      string w;
#define F(m) if (!(got.m==want.m)) w+=" " #m+string(names.count(#m)? "": "(missing)");
      FIELDS(F)
#undef F
#define F(m) if (memcmp(&got.m,&want.m,sizeof(got.m))) w+=" array " #m+string(names.count(#m)? "": "(missing)")+" "+h::hex(&got.m,12)+" wanted "+h::hex(&want.m,12);
      ARRAYS(F)
#undef F
      h::fail("partial-document","members:"+w+" "+d);
    }
    // with missingException set, an exception is thrown exactly if something is missing
    bool threw=false; Mixed z(y);
    try {std::istringstream i(d); xml_unpack_t u; u.missingException=true; u.parse(i); u>>z;} catch (const xml_pack_error&) {threw=true;}
    // containers are the exception: an absent container is left alone without complaint, only absent single values are reported
    if (!missing) CHECK(!threw,"missingException-without-reason",d);
    h::eval(d);
  }
  const char* req[]={"b1","s","flag","c","us","d","col","last"};
  for (int k=0; k<8; ++k) {
    Mixed x; gen(x); xr::Node n("root"); xt::tree(n,x);
    for (size_t j=0; j<n.kids.size(); ++j) if (n.kids[j].name==req[k]) {n.kids.erase(n.kids.begin()+j); break;}
    string d=doc::write(n); bool threw=false; string what;
    try {std::istringstream i(d); xml_unpack_t u; u.missingException=true; u.parse(i); Mixed z; u>>z;} catch (const xml_pack_error& e) {threw=true; what=e.what();}
    CHECK(threw && what.find(string("root#0.")+req[k])!=string::npos,"missingException-not-thrown",string(req[k])+" "+what+" "+d);
  }
}
static void several()
{
  h::section("several documents");
  for (int it=0; it<h::scale(40); ++it) {
    // one after the other on a stream, read by one xml_unpack_t each; an xml_unpack_t cleared and reused
    Mixed::Inner a,b; std::vector<string> v; gen(a); gen(b); gen(v);
    std::ostringstream o; o.precision(17); xml_pack_t p(o); p.prettyPrint=h::rnd(2); p<<a; ::xml_pack(p,"v",v); p<<b;
    string d=o.str(); std::istringstream i(d); Mixed::Inner x,y; std::vector<string> w;
    try {
      {xml_unpack_t u(i); u>>x;} {xml_unpack_t u; u.parse(i); ::xml_unpack(u,"v",w);} {xml_unpack_t u(i); u>>y;}
      CHECK(x==a && y==b && w==v,"documents-in-a-row",d);
      std::istringstream j(d); xml_unpack_t u; Mixed::Inner x2,y2; std::vector<string> w2;
      u.parse(j); u>>x2; u.clear(); u.parse(j); ::xml_unpack(u,"v",w2); u.clear(); u.parse(j); u>>y2;
      CHECK(x2==a && y2==b && w2==v,"cleared-and-reused",d);
      // several roots in one database
      std::istringstream k(d); xml_unpack_t q; q.parse(k); q.parse(k); q.parse(k); Mixed::Inner x3,y3; std::vector<string> w3;
      ::xml_unpack(q,"root#0",x3); ::xml_unpack(q,"root#1",y3); ::xml_unpack(q,"v",w3);
      CHECK(x3==a && y3==b && w3==v,"several-roots",d); CHECK(q.count("root")==2 && q.count("v")==1 && q.count("w")==0,"count-of-roots",d);
    } catch (const std::exception& e) {h::fail("documents-in-a-row-throw",string(e.what())+" "+d);}
    h::eval(d);
  }
}
static void cdata()
{
  h::section("CDATA");
  struct {const char* s;} t[]={{""},{"]"},{"]]"},{"]]>"},{"]]>]]>"},{"a]]>b"},{"<tag>&amp;\"'"},{"]]]>"},{" x "},{">"},{"<![CDATA[x]]>"},{"]]]]>>"}};
  for (size_t k=0; k<sizeof(t)/sizeof(*t); ++k) {CDATA c; static_cast<string&>(c)=t[k].s; rt(c,CDATA(),"CDATA");}
  for (int it=0; it<h::scale(300); ++it) {CDATA c, o; string s; for (int n=h::rnd(8); n>0; --n) s+="]]>[<&a"[h::rnd(7)]; static_cast<string&>(c)=s; static_cast<string&>(o)="old"; rt(c,o,"CDATA");}
}
// the ends of the floating point ranges, denormals among them
template <class T> static void extreme(const char* nm)
{
  typedef std::numeric_limits<T> L;
  T t[]={L::denorm_min(),-L::denorm_min(),L::min(),-L::min(),L::min()/2,L::min()/3,L::min()*(1-L::epsilon()),L::max(),-L::max(),L::epsilon(),T(0),T(1)/3};
  for (size_t k=0; k<sizeof(t)/sizeof(*t); ++k) for (int j=0; j<2; ++j) {
    rt(t[k],T(7),nm);
    std::vector<T> v(j+1,t[k]), o(2,T(3)); rt(v,o,nm);
  }
  for (int it=0; it<h::scale(100); ++it) {
    T x; do {unsigned long long b=h::rnd(); if (h::rnd(2)) b&=sizeof(T)==8? 0x800fffffffffffffULL: 0x807fffffULL; memcpy(&x,&b,sizeof x);} while (!(x-x==0));
    rt(x,T(7),nm);
  }
}
static void extremes() {h::section("ends of the floating point ranges"); extreme<double>("double"); extreme<float>("float");}
int main()
{
  h::Main m; G_MAX=12; G_N=4;
  many<bool>(10,"bool"); many<short>(30,"short"); many<unsigned short>(30,"unsigned short"); many<int>(60,"int"); many<unsigned>(40,"unsigned");
  many<long>(40,"long"); many<unsigned long>(40,"unsigned long"); many<long long>(40,"long long"); many<unsigned long long>(40,"unsigned long long");
  many<double>(60,"double"); many<float>(60,"float"); extremes();
  h::section("characters");
  for (int c=0; c<256; ++c) {
    rt((char)c,(char)(c+1),"char"); rt((signed char)c,(signed char)(c+1),"signed char"); rt((unsigned char)c,(unsigned char)(c+1),"unsigned char");
    rt(string(1,(char)c),string("old"),"string"); rt(string("a")+(char)c+"b",string(),"string"); rt(string(2,(char)c),string("x"),"string");
  }
  many<string>(1500,"string"); many<std::vector<int> >(60,"vector<int>"); many<std::vector<string> >(80,"vector<string>"); many<std::list<double> >(30,"list<double>");
  many<std::deque<string> >(30,"deque<string>"); many<std::set<string> >(40,"set<string>"); many<std::multiset<int> >(30,"multiset<int>"); many<std::map<string,int> >(40,"map<string,int>");
  many<std::multimap<int,string> >(30,"multimap<int,string>"); many<std::map<string,std::vector<std::map<int,string> > > >(30,"nested map"); many<std::vector<std::vector<string> > >(30,"vector<vector<string>>");
  many<std::pair<int,string> >(30,"pair"); many<std::vector<Mixed::Inner> >(30,"vector<Inner>"); many<std::vector<Colour> >(30,"vector<enum>"); many<std::vector<Tmpl<int> > >(30,"vector<Tmpl<int>>"); many<std::vector<unsigned long> >(20,"vector<unsigned long>"); many<std::set<unsigned char> >(20,"set<unsigned char>"); many<std::list<long long> >(20,"list<long long>"); many<std::vector<std::vector<unsigned short> > >(20,"vector<vector<unsigned short>>");
  many<std::map<Colour,string> >(20,"map<enum,string>"); many<std::vector<char> >(30,"vector<char>"); many<std::set<unsigned char> >(20,"set<unsigned char>"); many<std::vector<std::pair<string,Colour> > >(20,"vector<pair>");
  many<Colour>(10,"enum"); many<Mixed::Inner>(40,"Inner"); many<Priv>(30,"Priv"); many<Tmpl<string> >(30,"Tmpl<string>"); many<DerivedT>(30,"DerivedT"); many<Level3>(30,"Level3");
  many<Mixed>(300,"Mixed"); many<Arrays>(50,"Arrays");
  {Mixed a,b; gen(b); rt(a,b,"Mixed");}
  partial(); several(); cdata();
#ifdef C08_MORE
  more();
#endif
}
