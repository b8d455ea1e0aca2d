// C09: the XML written for an object is well formed and has the element structure of the object
// FLAGS: -std=c++98
// CD: fix1.cd fix1.h -nodef -typeName xml_pack
#include "h.h"
#include "classdesc_access.h"
#include "xml_pack_base.h"
#include "fix1.h"
#include "fix1.cd"
#include "fixgen.h"
#include "classdesc_epilogue.h"
#include "xmlref.h"
#include "xmltree.h"
using namespace classdesc; using namespace fix;
template <class T> void wf(const T& x, const char* nm)
{
  bool pretty=h::rnd(2); string root= h::rnd(2)? "root": "some.where.deep"; string schema= h::rnd(3)? "": "http://x.org/a-b?c=d";
  std::ostringstream o; o.precision(17); xml_pack_t p(o); p.prettyPrint=pretty; p.schema=schema;
  T y(x);
  if (root=="root") {if (h::rnd(2)) p<<x; else ::xml_pack(p,root,y);} else {::xml_pack(p,root,y); root="deep"; schema="";}
  string d=o.str(); string k=string(nm)+(pretty? " pretty ": " ")+d;
  xr::Node want(root), got; xt::tree(want,x);
  if (!schema.empty() && want.text=="\1none\1") want.attr.push_back(std::make_pair("xmlns",schema));
  try {xr::Reader r(d,true); got=r.document(true);} catch (const xr::Bad& b) {h::fail(string("not-well-formed-")+nm,b.why+": "+k); return;}
  string w;
  if (!xr::same(got,want,pretty,w)) h::fail(string("wrong-structure-")+nm,w+": "+k);
  if (!pretty) {
    // nothing but the elements
    size_t text=0; for (size_t i=0; i<d.size(); ++i) if (d[i]=='\n' || d[i]=='\t') text++;
    CHECK(text==0,"layout-without-prettyPrint",k);
  } else if (root=="root" && !want.kids.empty()) {
    // one element per line, indented by nesting level
    std::istringstream l(d); string line; int level=0; bool ok=true;
    while (std::getline(l,line)) {
      size_t ind=line.find_first_not_of(' '); if (ind==string::npos) {ok=false; break;}
      bool end=line.compare(ind,2,"</")==0, both=!end && line.find("</")!=string::npos;
      if (end) {if ((int)ind!=level) ok=false; level--;} else if (both) {if ((int)ind!=level+1) ok=false;} else {level++; if ((int)ind!=level) ok=false;}
    }
    CHECK(ok && level==0,"pretty-layout",k);
  }
  h::eval(k);
}
template <class T> void many(int n, const char* nm) {h::section(nm); for (int i=0; i<h::scale(n); ++i) {T x=T(); gen(x); wf(x,nm);}}
int main()
{
  h::Main m; G_MAX=10; G_N=4;
  h::section("characters");
  // every character is written so that the reader gets it back; control characters as references
  for (int c=0; c<256; ++c) {wf((char)c,"char"); wf((unsigned char)c,"unsigned char"); wf((signed char)c,"signed char"); wf(string(1,(char)c),"string"); wf(string("x")+(char)c+(char)c+"y","string"); }
  {std::ostringstream o; xml_pack_t p(o); string s="a&b<c>d'e\"f g\n"; p<<s; CHECK(o.str()=="<root>a&amp;b&lt;c&gt;d&apos;e&quot;f&#0032;g&#0010;</root>","quoting",o.str()); h::eval(o.str());}
  many<bool>(10,"bool"); many<int>(40,"int"); many<unsigned long long>(40,"unsigned long long"); many<long>(40,"long"); many<short>(20,"short"); many<double>(50,"double"); many<float>(50,"float");
  many<string>(800,"string"); many<std::vector<int> >(60,"vector<int>"); many<std::vector<string> >(60,"vector<string>"); many<std::list<double> >(20,"list"); many<std::deque<string> >(20,"deque");
  many<std::set<string> >(40,"set"); many<std::multiset<int> >(20,"multiset"); many<std::map<string,int> >(40,"map"); many<std::multimap<int,string> >(40,"multimap"); many<std::map<int,std::vector<std::map<string,Mixed::Inner> > > >(30,"nested");
  many<std::vector<Tmpl<int> > >(30,"vector<Tmpl>"); many<std::vector<unsigned long> >(20,"vector<unsigned long>"); many<std::set<unsigned char> >(20,"set<unsigned char>"); many<std::list<long long> >(20,"list<long long>"); many<std::vector<std::vector<unsigned short> > >(20,"vector<vector<unsigned short>>"); many<std::pair<string,Colour> >(30,"pair"); many<std::vector<std::pair<int,string> > >(30,"vector<pair>"); many<std::vector<Colour> >(20,"vector<enum>");
  many<Mixed::Inner>(60,"Inner"); many<Priv>(40,"Priv"); many<DerivedT>(40,"DerivedT"); many<Level3>(40,"Level3"); many<Mixed>(300,"Mixed"); many<Arrays>(80,"Arrays");
  h::section("several objects on one stream");
  for (int it=0; it<h::scale(60); ++it) {
    std::ostringstream o; o.precision(17); xml_pack_t p(o); p.prettyPrint=h::rnd(2);
    Mixed::Inner a; Level3 b; std::vector<string> v; gen(a); gen(b); gen(v);
    p<<a; ::xml_pack(p,"second",b); p<<v; ::xml_pack(p,"root",a);
    string d=o.str(); xr::Node w1("root"), w2("second"), w3("root"); xt::tree(w1,a); xt::tree(w2,b); xt::tree(w3,v);
    w2.text="\1none\1";
    try {
      string w; size_t pos=0;
      xr::Node* want[]={&w1,&w2,&w3,&w1};
      for (int k=0; k<4; ++k) {string rest=d.substr(pos); xr::Reader r(rest,true); xr::Node g=r.document(false); pos+=r.p; if (!xr::same(g,*want[k],p.prettyPrint,w)) h::fail("several-objects",w+" "+d);}
      CHECK(d.find_first_not_of(" \n",pos)==string::npos,"trailing-output",d);
    } catch (const xr::Bad& b) {h::fail("several-objects-not-well-formed",b.why+" "+d);}
    h::eval(d);
  }
  h::section("several objects under root paths of differing depth");
  for (int it=0; it<h::scale(60); ++it) {
    std::ostringstream o; o.precision(17); xml_pack_t p(o); p.prettyPrint=h::rnd(2);
    std::vector<xr::Node> want;
    for (int k=0; k<5; ++k) {
      string root; for (int n=h::rnd(4); n>0; --n) root+="x."; root+="last"; xr::Node w("last");
      if (h::rnd(2)) {DerivedT a; gen(a); ::xml_pack(p,root,a); xt::tree(w,a);} else {std::vector<std::pair<int,string> > a; gen(a); ::xml_pack(p,root,a); xt::tree(w,a);}
      want.push_back(w);
    }
    string d=o.str(), w; size_t pos=0;
    try {for (size_t k=0; k<want.size(); ++k) {string rest=d.substr(pos); xr::Reader r(rest,true); xr::Node g=r.document(false); pos+=r.p; if (!xr::same(g,want[k],p.prettyPrint,w)) h::fail("root-paths",w+" "+d);} CHECK(d.find_first_not_of(" \n",pos)==string::npos,"trailing-output",d);}
    catch (const xr::Bad& b) {h::fail("root-paths-not-well-formed",b.why+" "+d);}
    h::eval(d);
  }
  h::section("CDATA");
  for (int it=0; it<h::scale(400); ++it) {
    CDATA c; string s; for (int n=h::rnd(9); n>0; --n) s+="]]>[<&a !"[h::rnd(9)]; static_cast<string&>(c)=s;
    std::ostringstream o; xml_pack_t p(o); p.prettyPrint=h::rnd(2); p<<c; string d=o.str();
    try {xr::Reader r(d,true); xr::Node g=r.document(true); CHECK(g.name=="root" && g.text==s && g.kids.empty(),"CDATA",d); CHECK(d.find("<![CDATA[")!=string::npos,"CDATA-section",d);}
    catch (const xr::Bad& b) {h::fail("CDATA-not-well-formed",b.why+" "+d);}
    h::eval(d);
  }
  h::section("failing stream");
  {std::ostringstream o; o.setstate(std::ios::failbit); xml_pack_t p(o); bool t=false; try {p<<5;} catch (const std::exception&) {t=true;} CHECK(t,"write-failure-unreported","int"); h::eval("fail");
   p.prettyPrint=true; t=false; try {p<<string("x");} catch (const std::exception&) {t=true;} CHECK(t,"write-failure-unreported","string"); }
}
