// C10: the parser builds exactly the database of the document's elements, attributes and text, from a stream or a FILE*,
// and answers every ill-formed input with xml_pack_error or a normal return
// FLAGS: -std=c++98
#include "h.h"
#include "xml_unpack_base.h"
#include "classdesc_epilogue.h"
#include "xmlref.h"
using namespace classdesc;
using std::string;
static string show(const xr::Content& c) {string r; for (xr::Content::const_iterator i=c.begin(); i!=c.end(); ++i) r+="["+i->first+"]="+i->second+"; "; return r;}
static xr::Content db(xml_unpack_t& u) {xr::Content r; xml_unpack_t::ContentMap::const_iterator e=u.endToken("\xff\xff\xff\xff\xff\xff"); for (xml_unpack_t::ContentMap::const_iterator i=u.firstToken(""); i!=e; ++i) r[i->first]=i->second; return r;}
// 0 = parsed, 1 = xml_pack_error
static int load(const string& d, xml_unpack_t& u, int how, string& what, string* rest=0)
{
  try {
    if (how==0) {std::istringstream i(d); u.parse(i); if (rest) {i.clear(); std::ostringstream o; char c; while (i.get(c)) o<<c; *rest=o.str();}}
    else if (how==1) {FILE* f=fmemopen(const_cast<char*>(d.empty()? " ": d.data()),d.empty()? 1: d.size(),"rb"); struct C {FILE* f; ~C() {fclose(f);}} c={f}; u.parse(f); if (rest) {int k; while ((k=fgetc(f))!=EOF) *rest+=(char)k;}}
    else {FILE* f=fopen("c10.xml","wb"); fwrite(d.data(),1,d.size(),f); fclose(f); xml_unpack_t v("c10.xml"); u=v; unlink("c10.xml");}
  } catch (const xml_pack_error& e) {what=e.what(); return 1;}
  return 0;
}
static void good(const string& d, const xr::Node& n, int how, const char* key, const string* rest=0)
{
  xml_unpack_t u; string what, r;
  xr::Content c; xr::Count k; xr::build(n,"",c,k);
  if (load(d,u,how,what,rest? &r: 0)) {h::fail(string(key)+"-rejected",what+": "+d); return;}
  if (rest) CHECK(r==*rest,string(key)+"-reads-beyond-the-root",d+" left: "+r);
  xr::Content g=db(u);
  if (g!=c) {h::fail(string(key)+"-database","got "+show(g)+" wanted "+show(c)+" from "+d); return;}
  for (xr::Count::iterator i=k.begin(); i!=k.end(); ++i) {
    bool ok=u.count(i->first)==i->second && u.exists(i->first);
    for (unsigned j=0; j<=i->second; ++j) ok=ok && u.present(idx(i->first,j))==(j<i->second);
    if (!ok) h::fail(string(key)+"-count",i->first+" "+xr::num(u.count(i->first))+" "+d);
  }
  CHECK(u.count("nosuch")==0 && !u.exists("nosuch") && !u.present("nosuch"),string(key)+"-count-of-nothing",d);
  // delivered to string variables, with and without explicit #0; elements without text clear the variable, absent ones leave it
  for (xr::Count::iterator i=k.begin(); i!=k.end(); ++i)
    for (unsigned j=0; j<i->second && j<3; ++j) {
      string q=idx(i->first,j), v="before"; u.unpack(q,v);
      xr::Content::iterator x=c.find(q);
      if (v!=(x==c.end()? "": x->second)) h::fail(string(key)+"-unpack",q+" '"+v+"' from "+d);
      if (j==0) {string w="before"; u.unpack(i->first,w); if (w!=v) h::fail(string(key)+"-unpack-#0",i->first+" '"+w+"' from "+d);}
    }
  string v="before"; u.unpack("nosuch.x",v); CHECK(v=="before",string(key)+"-unpack-absent",d);
}
// the contract for arbitrary input: well-formed documents exactly; anything else an exception or a normal return
static void any(const string& d, int how, bool must_throw=false)
{
  xr::Node n; size_t used=0; string why;
  try {xr::Reader r(d); n=r.document(false); used=r.p;} catch (const xr::Bad& b) {why=b.why;}
  if (why.empty()) {if (how<2) {string rest=d.substr(used); good(d,n,how,"document",&rest);} else good(d,n,how,"document");}
  else {
    xml_unpack_t u; string what; bool t=false;
    try {t=load(d,u,how,what);} catch (const std::exception& e) {h::fail("wrong-exception",string(e.what())+" "+d); return;} catch (...) {h::fail("wrong-exception",d); return;}
    if (must_throw && !t) h::fail("ill-formed-accepted",why+": "+d);
  }
  h::eval(d);
}
static string name() {static const char* n[]={"a","b","ab","a","x-1","root","_y","b","ns:t"}; return n[h::rnd(9)];}
static string chars(int n)
{
  static const char* t[]={"a","text"," ","\n","&amp;","&lt;","&gt;","&quot;","&apos;","&#65;","&#x4a;","&#9;","'","\"","=","/","]","\xc3\xa9",">","-","!","?","0","/>","\t "};
  string r; for (; n>0; --n) r+=t[h::rnd(25)];
  for (size_t p; (p=r.find("]]>"))!=string::npos;) r.erase(p,1);
  return r;
}
static string misc() {static const char* t[]={"<!---->","<!-- c -->","<!-- <x>\"'&amp;> -->","<?pi?>","<?p <a> \" ?>","<!-- - -->","<?q ?a>b?>","<!--]]>-->"}; return t[h::rnd(8)];}
static string cdata() {static const char* t[]={"","]","]]","a<b>&amp;"," ","<![CDATA[","]]]","x]>y","\"","</a>"}; return string("<![CDATA[")+t[h::rnd(10)]+"]]>";}
static string elem(int depth)
{
  string n=name(), r="<"+n; std::set<string> used;
  for (int k=h::rnd(3)? 0: h::rnd(4); k>0; --k) {
    string a=name(); if (!used.insert(a).second) continue;
    char q= h::rnd(2)? '"': '\''; string v;
    for (int j=h::rnd(4); j>0; --j) {string c=chars(1); if (c.find(q)==string::npos) v+=c;}
    r+=string(1+h::rnd(2)," \n \r"[h::rnd(4)])+a+(h::rnd(4)? "": h::rnd(2)? " ": "\r\n")+"="+(h::rnd(4)? "": h::rnd(2)? "\t": "\r")+q+v+q;
  }
  if (h::rnd(4)==0) r+=h::rnd(2)? " ": "\r\n";
  if (h::rnd(6)==0) return r+"/>";
  r+=">";
  for (int k=h::rnd(depth? 6: 3); k>0; --k)
    switch (h::rnd(6)) {
    case 0: r+=misc(); break;
    case 1: r+=cdata(); break;
    case 2: case 3: if (depth) {r+=elem(depth-1); break;}
    default: r+=chars(h::rnd(4));
    }
  r+="</"+n; if (h::rnd(5)==0) r+=" \r\n\t"[h::rnd(4)]; return r+">";
}
static string prolog()
{
  string r; if (h::rnd(3)==0) r="<?xml version=\"1.0\"?>"; 
  for (int k=h::rnd(3); k>0; --k) switch (h::rnd(4)) {case 0: r+=misc(); break; case 1: r+=h::rnd(2)? "\n ": "\r\n"; break; case 2: r+=" "; break; default: if (r.find("DOCTYPE")==string::npos && h::rnd(3)==0) r+="<!DOCTYPE a [<!ELEMENT a (b)>\n<!ATTLIST b c CDATA \">>\">]>";}
  return r;
}
int main()
{
  h::Main m;
  h::section("generated documents");
  for (int it=0; it<h::scale(1500); ++it) {
    string d=prolog()+elem(h::rnd(4))+(h::rnd(3)? "": h::rnd(2)? "\n<!-- end -->": "<next>x</next>");
    try {xr::Reader r(d); r.document(false);} catch (const xr::Bad& b) {h::fail("harness-generator",b.why+": "+d); continue;}
    any(d,h::rnd(20)? h::rnd(2): 2);
  }
  h::section("truncated documents");
  for (int it=0; it<h::scale(60); ++it) {
    string p=prolog(), e=elem(h::rnd(3)), d=p+e; xr::Node n; size_t end; {xr::Reader r(d); n=r.document(false); end=r.p;}
    size_t start=d.size()-e.size();
    for (size_t k=start+1; k<end; ++k) any(d.substr(0,k),h::rnd(2),true);
    any("",0); any("   ",1); any(misc(),0); any(" \n"+misc()+" ",1);
  }
  h::section("damaged documents");
  for (int it=0; it<h::scale(1500); ++it) {
    string d=prolog()+elem(h::rnd(3));
    for (int k=1+h::rnd(2); k>0; --k) {
      size_t p=h::rnd(d.size());
      switch (h::rnd(4)) {
      case 0: d.erase(p,1+h::rnd(3)); break;
      case 1: d.insert(p,1,"<>/&;\"'=!-?[] \x00\xff]#"[h::rnd(18)]); break;
      case 2: d[p]="<>/&;\"'=!-?[] \x00\xff]#"[h::rnd(18)]; break;
      default: std::swap(d[p],d[h::rnd(d.size())]);
      }
      if (d.empty()) d="<";
    }
    any(d,h::rnd(2));
  }
  h::section("end tags");
  {
    const char* t[]={"<a></b>","<a><b></a></b>","<ab></b>","<b></ab>","<a><b></b></ab>","<a><b></a>","<a><b>x</b></b>","<aa></a>","<a></aa>","<a>","<a><b/>","<root><ot></root></root>","<a><xb></b></a>","<a><xb>t</b>u</a>","<a><bb></b></a>","<a><x-b></b></a>","<r><xa></a></r>","<a><a></a>","<x.a></x>","<a.b><b></a.b></b>","<a></>","<a></ a>","<a b></a>","<a b=></a>","<a b=c></a>","<a =\"x\"></a>","<a b=\"x></a>","< a></a>","<a>&nosuch;</a>","<a>&amp</a>","<a>&#300;</a>","<a>&#x100;</a>","<a><!-- </a>","<a><![CDATA[x</a>","<a><?x </a>","<>x</>","</a>","text","=","<a/","<a","<","<!","<a b='c' d></a>","<a b='c' =></a>","<a><","<a></","<a></a"};
    for (size_t k=0; k<sizeof(t)/sizeof(*t); ++k) for (int how=0; how<3; ++how) {
      xml_unpack_t u; string what;
      bool lax= string(t[k])=="<a></ a>" || string(t[k])=="< a></a>" || string(t[k])=="<a b=c></a>";       // accepted leniently
      if (!load(t[k],u,how,what) && !lax) h::fail("ill-formed-accepted",t[k]);
      any(t[k],how); h::eval(string(t[k])+h::str(how));
    }
  }
  h::section("exhaustive: every string over a markup alphabet as content of an element");
  {
    const char al[]="<>/a&;\"= !-]"; const int L=h::thorough()? 5: 4, N=sizeof(al)-1;
    for (int len=0; len<=L; ++len) {
      std::vector<int> w(len,0);
      for (;;) {
        string s; for (int k=0; k<len; ++k) s+=al[w[k]];
        int how=h::rnd(2);
        any("<a>"+s+"</a>",how); any("<a"+s+"></a>",how);
        if (len<=3) {any("<a>"+s,how); any("<a><!-"+s+"->b</a>",how); any("<a><![CDATA["+s+"]]></a>",how); any("<a b=\""+s+"\">x</a>",how); any("<a>x</a"+s,how); any(s+"<a/>",how); any("<?"+s+"?><a>b</a>",how); any("<a><b>"+s+"</b>x</a>",how); any("<a><b"+s+"c</a>",how);}
        int k=len-1; while (k>=0 && ++w[k]==N) w[k--]=0;
        if (k<0) break;
      }
    }
  }
  h::section("arbitrary bytes");
  for (int it=0; it<h::scale(3000); ++it) {string d= h::rnd(2)? "<a>": ""; d+=h::rstr(30,h::rnd(2)? 256: 64); any(d,h::rnd(2));}
  h::section("character references");
  for (int c=0; c<128; ++c) {char b[64]; sprintf(b,"<a>&#%d;</a>",c); any(b,0); sprintf(b,"<a>x&#x%X;y</a>",c); any(b,1); sprintf(b,"<a b='&#%04d;'>&#x%x;</a>",c,c); any(b,0);}
  h::section("bytes beyond ASCII");
  for (int c=128; c<256; ++c) {
    string b(1,(char)c);
    string t[]={"<"+b+"/>","<"+b+" a='b'></"+b+">","<a><"+b+">"+b+"</"+b+"></a>","<!DOCTYPE a>\n<"+b+">/"+b+"</"+b+">","<a "+b+"='"+b+"'>"+b+"</a>"};
    for (int k=0; k<5; ++k) for (int how=0; how<2; ++how) any(t[k],how);
  }
  h::section("deep nesting");
  {string d; for (int i=0; i<300; ++i) d+="<n>"; d+="x"; for (int i=0; i<300; ++i) d+="</n>"; any(d,0);}
  h::section("conversion");
  {
    struct {const char* t; bool v;} b[]={{"true",true},{"1",true},{"false",false},{"0",false},{" true ",true},{"TRUE",true},{"yes",true},{"on",true},{"y",true},{"t",true},{"no",false},{"off",false},{"tru e",true},{"",false},{"10",false}};
    for (size_t k=0; k<sizeof(b)/sizeof(*b); ++k) if (*b[k].t) {std::istringstream i(string("<a>")+b[k].t+"</a>"); xml_unpack_t u(i); bool x=!b[k].v; u.unpack("a",x); CHECK(x==b[k].v,"bool",b[k].t); h::eval(b[k].t);}
    for (int k=0; k<h::scale(300); ++k) {
      long long v=(long long)h::interesting(64); std::ostringstream o; o<<"<a>"<<(h::rnd(2)? " ": "")<<v<<(h::rnd(2)? "\n": "")<<"</a>"; std::istringstream i(o.str()); xml_unpack_t u(i); long long x=0; u.unpack("a",x); CHECK(x==v,"integer",o.str()); h::eval(o.str());
    }
  }
}
