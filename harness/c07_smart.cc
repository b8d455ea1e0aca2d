// C07: smart pointers and polymorphic objects survive packing to a buffer and to XML
// FLAGS: -std=c++11
// CD: poly1.cd poly1.h -nodef -typeName -use_mbr_pointers pack unpack xml_pack xml_unpack
// CD: poly0.cd poly0.h -nodef pack unpack
#include "h.h"
#include "classdesc_access.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "poly1.h"
#include "poly1.cd"
#include "poly0.h"
#include "poly0.cd"
#include "fixgen.h"
#include <list>
#include "classdesc_epilogue.h"
using namespace classdesc;
namespace classdesc {template <> Factory<py::Base,string>::Factory() {registerType<py::Circle>(); registerType<py::Disc>(); registerType<py::Empty>("::py::Empty"); registerType<py::Group>();}}
namespace py
{
  long live=0;
  static long failAfter=-1;
  typedef shared_ptr<Base> P;
  static bool isnull(const P& x) {return !x;}
  bool eq(const P& a, const P& b) {return a? b && a->same(*b): !b;}
  bool Group_b::operator==(const Group_b& x) const {
    bool r=before==x.before && after==x.after && eq(a,x.a) && v.size()==x.v.size() && m.size()==x.m.size();
    for (size_t i=0; r && i<v.size(); ++i) r=eq(v[i],x.v[i]);
    for (std::map<string,P>::const_iterator i=m.begin(), j=x.m.begin(); r && i!=m.end(); ++i, ++j) r=i->first==j->first && eq(i->second,j->second);
    return r;
  }
  Factory<Base,string>& fac() {static Factory<Base,string> f; return f;}
  Base* Base::create(const string& t) {return fac().create(t);}
  static bool XML=false; // xml drops null elements of containers, and characters are text
  static void txt(string& s) {if (XML) {s.clear(); for (int n=h::rnd(12); n>0; --n) s+="abcXYZ<&>\"' 09"[h::rnd(14)]; s="t"+s+"t";} else ::gen(s);}
  static P newp(int depth)
  {
    switch (h::rnd(depth>3? 4: 6)) {
    case 0: return P(); case 1: {P r(new Circle); r->genr(depth); return r;} case 2: {P r(new Disc); r->genr(depth); return r;} case 3: {return P(new Empty);}
    default: {P r(new Group); r->genr(depth+1); return r;}
    }
  }
  static P notnull(int depth) {P p; while (!(p=newp(depth))) ; return p;}
  static void fill(Circle& x, int) {x.r=(int)h::rnd()/16.0; txt(x.name);}
  static void fill(Unregistered& x, int) {x.r=3; x.name="u";}
  static void fill(Disc& x, int) {x.r=(int)h::rnd()/8.0; txt(x.name); x.fill=h::rnd(); x.labels.clear(); for (int n=h::rnd(4); n>0; --n) {string s; txt(s); x.labels.push_back(s);}}
  static void fill(Empty&, int) {}
  static void fill(Group& x, int d) {x.before=h::rnd(); x.after=h::rnd(); x.a=newp(d); for (int n=h::rnd(4); n>0; --n) x.v.push_back(XML? notnull(d): newp(d)); for (int n=h::rnd(3); n>0; --n) {string k; txt(k); x.m[k]=XML? notnull(d): newp(d);}}
  static void gen(Plain& x) {::gen(x.a); txt(x.b); x.c.clear(); for (int n=h::rnd(4); n>0; --n) x.c.push_back(h::rnd());}
  typedef shared_ptr<Plain> Q;
  static bool eq(const Q& a, const Q& b) {return a? b && *a==*b: !b;}
  static Q newq() {if (h::rnd(3)==0) return Q(); Q r(new Plain); gen(*r); return r;}
  static Q nnq() {Q r(new Plain); gen(*r); return r;}
  template <class T> static bool eqv(const T& a, const T& b) {return a? b && *a==*b: !b;}
  static void gen(Holder& x)
  {
    x=Holder(); x.before=h::rnd(); x.after=h::rnd(); x.p=newq(); if (h::rnd(2)) x.q.reset(new int(h::rnd())); if (h::rnd(2)) {x.s.reset(new string); txt(*x.s);}
    if (h::rnd(2)) {x.pv.reset(new std::vector<Plain>(XML? 1+h::rnd(3): h::rnd(4))); for (size_t i=0; i<x.pv->size(); ++i) gen((*x.pv)[i]);}
    for (int n=h::rnd(4); n>0; --n) x.v.push_back(XML? nnq(): newq()); for (int n=h::rnd(4); n>0; --n) x.m[(int)h::rnd()]=XML? nnq(): newq();
    x.poly=newp(0); if (h::rnd(2)) {x.pp.reset(new Q(XML? nnq(): newq()));}
  }
  static string diff(const Holder& a, const Holder& b)
  {
    string r;
    if (a.before!=b.before) r+=" before"; if (a.after!=b.after) r+=" after"; if (!eq(a.p,b.p)) r+=" p"; if (!eqv(a.q,b.q)) r+=" q"; if (!eqv(a.s,b.s)) r+=" s"; if (!eqv(a.pv,b.pv)) r+=" pv";
    bool ok=a.v.size()==b.v.size() && a.m.size()==b.m.size(); for (size_t i=0; ok && i<a.v.size(); ++i) ok=eq(a.v[i],b.v[i]); if (!ok) r+=" v";
    ok=a.m.size()==b.m.size(); for (std::map<int,Q>::const_iterator i=a.m.begin(), j=b.m.begin(); ok && i!=a.m.end(); ++i, ++j) ok=i->first==j->first && eq(i->second,j->second); if (!ok) r+=" m";
    if (!eq(a.poly,b.poly)) r+=" poly"; if (a.pp? !b.pp || !eq(*a.pp,*b.pp): bool(b.pp)) r+=" pp";
    return r;
  }
  static void gen(Uniq& x) {x.before=h::rnd(); x.after=h::rnd(); x.p.reset(); x.s.reset(); x.poly.reset(); x.q.reset(); if (h::rnd(2)) {x.p.reset(new Plain); gen(*x.p);} if (h::rnd(2)) {x.s.reset(new string); txt(*x.s);} if (h::rnd(2)) {P p=notnull(0); x.poly.reset(dynamic_cast<Base*>(p->clone()));} if (h::rnd(2)) x.q.reset(new int(h::rnd()));}
  static string diff(const Uniq& a, const Uniq& b) {string r; if (a.before!=b.before) r+=" before"; if (a.after!=b.after) r+=" after"; if (!eqv(a.p,b.p)) r+=" p"; if (!eqv(a.s,b.s)) r+=" s"; if (!eqv(a.q,b.q)) r+=" q"; if (a.poly? !b.poly || !a.poly->same(*b.poly): bool(b.poly)) r+=" poly"; return r;}
  static string what(const Base* p) {return p? p->kind(): "null";}
}
using namespace py;
template <class T> void bin(const T& x, T& y, const char* nm)
{
  pack_t b, c; b<<x; c<<x; string got= b.size()? string(b.data(),b.size()): string();
  b<<77;
  string d=string(nm)+" "+h::str(got.size());
  CHECK(got==(c.size()? string(c.data(),c.size()): string()),string("packing-is-a-function-")+nm,d);
  try {b>>y;} catch (const std::exception& e) {h::fail(string("unpack-throws-")+nm,d+" "+e.what()); return;}
  string df=diff(x,y); CHECK(df.empty(),string("roundtrip-")+nm,d+" differs in"+df);
  CHECK(b.pos()==got.size(),string("consumes-exactly-")+nm,d); int t=0; try {b>>t;} catch (const std::exception&) {} CHECK(t==77,string("following-value-")+nm,d);
  h::eval(d+h::hex(got.data(),got.size()));
}
template <class T> void xml(const T& x, T& y, const char* nm)
{
  std::ostringstream o; o.precision(17); {xml_pack_t p(o); p.prettyPrint=h::rnd(2); T& nx=const_cast<T&>(x); if (h::rnd(2)) ::xml_pack(p,"root",nx); else p<<x;}
  string d=string(nm)+" "+o.str();
  try {std::istringstream i(o.str()); xml_unpack_t u(i); ::xml_unpack(u,"root",y);} catch (const std::exception& e) {h::fail(string("xml-unpack-throws-")+nm,d+" "+e.what()); return;}
  string df=diff(x,y); CHECK(df.empty(),string("xml-roundtrip-")+nm,d+" differs in"+df);
  h::eval(d);
}
template <class T, class U> string xmlp(T& x, U& y)
{
  std::ostringstream o; o.precision(17); {xml_pack_t p(o); p.prettyPrint=h::rnd(2); ::xml_pack(p,"root",x);}
  h::eval(o.str());
  try {std::istringstream i(o.str()); xml_unpack_t u(i); ::xml_unpack(u,"root",y);} catch (const std::exception& e) {h::fail("xml-unpack-throws",o.str()+e.what());}
  return o.str();
}
namespace old
{
  using namespace po;
  typedef classdesc::shared_ptr<classdesc::object> O;
  static void gen(A& a) {::gen(a.x); ::gen(a.s);} static void gen(B& a) {gen(static_cast<A&>(a)); ::gen(a.y); ::gen(a.v);} static void gen(C& a) {::gen(a.z);} static void gen(D& a) {gen(static_cast<B&>(a)); ::gen(a.c);}
  static string show(const classdesc::object* o)
  {
    std::ostringstream s; s.precision(17);
    if (!o) return "null";
    s<<typeid(*o).name();
    if (const A* a=dynamic_cast<const A*>(o)) s<<" A "<<a->x<<' '<<h::hex(a->s.data(),a->s.size());
    if (const B* a=dynamic_cast<const B*>(o)) {s<<" B "<<a->y; for (int i: a->v) s<<' '<<i;}
    if (const C* a=dynamic_cast<const C*>(o)) s<<" C "<<h::hex(a->z.data(),a->z.size());
    if (const D* a=dynamic_cast<const D*>(o)) s<<" D "<<int(a->c);
    return s.str();
  }
  static classdesc::object* make() {switch (h::rnd(4)) {case 0: {A* r=new A; gen(*r); return r;} case 1: {B* r=new B; gen(*r); return r;} case 2: {C* r=new C; gen(*r); return r;} default: {D* r=new D; gen(*r); return r;}}}
  static A* makeA() {for (;;) {classdesc::object* o=make(); if (A* a=dynamic_cast<A*>(o)) return a; delete o;}}
  static O newo() {return h::rnd(4)? O(make()): O();}
}
int main()
{
  h::Main m; G_MAX=30; G_N=4;
  h::section("smart pointers in a buffer");
  for (int i=0; i<h::scale(400); ++i) {
    {Holder x, y; py::gen(x); if (h::rnd(4)) py::gen(y); bin(x,y,"Holder");}
    {Uniq x, y; py::gen(x); if (h::rnd(4)) py::gen(y); bin(x,y,"Uniq");}
    // several references to what the target pointed at: those are left alone
    {Q x=newq(), y=newq(), other=y, was=y? Q(new Plain(*y)): Q(); pack_t b; b<<x; b>>y; CHECK(py::eq(x,y),"roundtrip-shared_ptr",""); CHECK(py::eq(other,was),"other-owner-disturbed",""); CHECK(!y || y!=x,"not-a-new-object",""); h::eval(h::str(!x)+h::str(!y)+h::str(i));}
    {P x=newp(0), y=newp(0), other=y, was=y? P(y->cloneT<Base>()): P(); pack_t b; b<<x; size_t n=b.size(); b<<5; b>>y; CHECK(py::eq(x,y),"roundtrip-polymorphic",what(x.get())+" "+what(y.get())); CHECK(b.pos()==n,"consumes-exactly-polymorphic",what(x.get())); CHECK(py::eq(other,was),"other-owner-disturbed-polymorphic",what(was.get())); h::eval(what(x.get())+what(other.get())+h::str(n));}
    {P x=newp(0), y; if (x) {P c(x->cloneT<Base>()); CHECK(c!=x && x->same(*c),"clone",what(x.get())); CHECK(x->cloneT<Disc>()==0 || dynamic_cast<Disc*>(x.get()),"cloneT-of-another-type",what(x.get()));}}
  }
  CHECK(py::live==0,"leak",h::str(py::live));
  h::section("weak pointers");
  for (int i=0; i<h::scale(200); ++i) {
    Weak x, y; Q a=newq(), b=newq(), bw=b? Q(new Plain(*b)): Q(); x.w=a; y.w=b; x.before=h::rnd(); x.after=h::rnd(); string d="from "+h::str(bool(a))+" to "+h::str(bool(b)); h::eval(d+h::str(i));
    pack_t k; k<<x; size_t n=k.size(); k<<6;
    k>>y; CHECK(y.before==x.before && y.after==x.after && k.pos()==n,"weak_ptr-stream",d);
    CHECK(y.w.lock()==b,"weak_ptr-retargeted",d); if (a && b) CHECK(*b==*a,"weak_ptr-value",d); if (!a && b) CHECK(py::eq(b,bw),"weak_ptr-value-of-null",d);
  }
  CHECK(py::live==0,"leak",h::str(py::live));
  h::section("damaged streams");
  for (int i=0; i<h::scale(400); ++i) {
    Holder x, y; py::gen(x); pack_t b; b<<x; size_t cut=h::rnd(b.size()); pack_t c; c.packraw(b.data(),cut); bool t=false; try {c>>y;} catch (const std::exception&) {t=true;} CHECK(t,"truncation-accepted",h::str(cut)); h::eval(h::str(cut)+h::str(i));
    P u(new Unregistered), z=newp(0), zw=z? P(z->cloneT<Base>()): P(); u->genr(0); pack_t k; k<<u; t=false; try {k>>z;} catch (const Factory<Base,string>::InvalidType& e) {t=string(e.what()).find("py::Unregistered")!=string::npos;} CHECK(t,"unregistered-type-accepted",what(z.get())); CHECK(py::eq(z,zw),"target-changed-by-failure",what(zw.get()));
  }
  CHECK(py::live==0,"leak",h::str(py::live));
  h::section("factory");
  {
    std::vector<string> t=fac().types(); std::set<string> s(t.begin(),t.end()); CHECK(t.size()==4 && s.size()==4 && s.count("::py::Circle") && s.count("::py::Disc") && s.count("::py::Empty") && s.count("::py::Group"),"types",h::str(t.size()));
    for (size_t i=0; i<t.size(); ++i) {P p(fac().create(t[i])), q(fac().create(t[i])); CHECK(p && q && p!=q && p->type()==t[i],"create",t[i]); h::eval(t[i]);}
    {Circle_b d; P p(fac().create("::py::Circle")); CHECK(static_cast<Circle_b&>(dynamic_cast<Circle&>(*p))==d,"create-default","");}
    for (int i=0; i<200; ++i) {string s=i==0? "": i==1? "::py::Circle ": i==2? "Circle": h::rstr(12,128); bool t=false; try {P p(fac().create(s));} catch (const Factory<Base,string>::InvalidType& e) {t=true; CHECK(string(e.what())==("invalid type "+s).c_str(),"message",e.what());} CHECK(t,"create-unregistered",s); h::eval(s);}
    Factory<Base,string> f(fac()); f.registerType<Disc>("::py::Circle"); f.registerType<Circle>("x"); P a(f.create("x")), b(f.create("::py::Circle")); CHECK(dynamic_cast<Circle*>(a.get()),"registered-name","x"); CHECK(dynamic_cast<Circle*>(b.get()),"first-registration-counts","::py::Circle"); bool th=false; try {delete fac().create("x");} catch (const std::exception&) {th=true;} CHECK(th,"factories-share","x");
  }
  h::section("smart pointers in XML"); XML=true;
  for (int i=0; i<h::scale(200); ++i) {
    {Holder x, y; py::gen(x); if (h::rnd(4)) py::gen(y); y.v.clear(); xml(x,y,"Holder");}
    {Uniq x, y; py::gen(x); if (h::rnd(4)) py::gen(y); xml(x,y,"Uniq");}
  }
  for (int i=0; i<h::scale(200); ++i) {
    // other owners of what the target referred to are left alone, whatever its type
    {Q x=newq(), y=newq(), other=y, was=y? Q(new Plain(*y)): Q(); string d=xmlp(x,y); CHECK(py::eq(x,y),"xml-roundtrip-shared_ptr",d); CHECK(py::eq(other,was),"xml-other-owner-disturbed",d); CHECK(!y || y!=other,"xml-not-a-new-object",d);}
    {P x=newp(0), y=h::rnd(2) && x? P(x->cloneT<Base>()): newp(0), other; if (y && h::rnd(2)) y->genr(0); other=y; P was=y? P(y->cloneT<Base>()): P(); string d=xmlp(x,y); CHECK(py::eq(x,y),"xml-roundtrip-polymorphic",d); CHECK(py::eq(other,was),"xml-other-owner-disturbed-polymorphic",d); CHECK(!y || y!=other,"xml-not-a-new-object-polymorphic",d);}
    // containers of pointers: the elements are const there
    {std::vector<P> x, y(h::rnd(3)); for (int n=1+h::rnd(4); n>0; --n) x.push_back(newp(0)); string d=xmlp(x,y); bool ok=x.size()==y.size(); for (size_t k=0; ok && k<x.size(); ++k) ok=py::eq(x[k],y[k]); CHECK(ok,"xml-roundtrip-vector-of-polymorphic",d);}
    {std::vector<Q> x, y(h::rnd(3)); for (int n=1+h::rnd(4); n>0; --n) x.push_back(nnq()); string d=xmlp(x,y); bool ok=x.size()==y.size(); for (size_t k=0; ok && k<x.size(); ++k) ok=py::eq(x[k],y[k]); CHECK(ok,"xml-roundtrip-vector-of-pointers",d);}
    {std::vector<shared_ptr<int> > x, y(h::rnd(3)); for (int n=1+h::rnd(4); n>0; --n) x.push_back(shared_ptr<int>(new int(h::rnd()))); string d=xmlp(x,y); bool ok=x.size()==y.size(); for (size_t k=0; ok && k<x.size(); ++k) ok=eqv(x[k],y[k]); CHECK(ok,"xml-roundtrip-vector-of-pointers-to-int",d);}
    {std::list<std::unique_ptr<string> > x, y; for (int n=1+h::rnd(4); n>0; --n) {x.push_back(std::unique_ptr<string>(new string)); txt(*x.back());} string d=xmlp(x,y); bool ok=x.size()==y.size(); for (std::list<std::unique_ptr<string> >::iterator k=x.begin(), l=y.begin(); ok && k!=x.end(); ++k, ++l) ok=eqv(*k,*l); CHECK(ok,"xml-roundtrip-list-of-pointers-to-string",d);}
    {std::map<string,shared_ptr<double> > x, y; for (int n=1+h::rnd(4); n>0; --n) {string k; txt(k); x[k]; if (h::rnd(3)) x[k].reset(new double((int)h::rnd()/4.0));} string d=xmlp(x,y); bool ok=x.size()==y.size(); for (std::map<string,shared_ptr<double> >::iterator k=x.begin(), l=y.begin(); ok && k!=x.end(); ++k, ++l) ok=k->first==l->first && eqv(k->second,l->second); CHECK(ok,"xml-roundtrip-map-of-pointers",d);}
    {const shared_ptr<int> x(new int(h::rnd())); shared_ptr<int> y; string d=xmlp(x,y); CHECK(eqv(x,y),"xml-roundtrip-const-pointer",d);}
  }
  {std::vector<Q> x(3), y; x[1]=nnq(); string d=xmlp(x,y); CHECK(y.size()==3 && !y[0] && y[1] && !y[2],"xml-null-element-of-sequence",d);}
  XML=false;
  CHECK(py::live==0,"leak",h::str(py::live));
  h::section("object hierarchy");
  using namespace old;
  {A a; B b; C c; D d; std::set<int> ids; ids.insert(c.type()); ids.insert(d.type()); ids.insert(a.type()); ids.insert(b.type()); CHECK(ids.size()==4 && *ids.begin()>=0,"type-ids",""); A a2; CHECK(a2.type()==a.type(),"type-id-is-a-function","");}
  for (int i=0; i<h::scale(1000); ++i) {
    O x=newo(), y=newo(), other=y; string sx=old::show(x.get()), so=old::show(y.get()); pack_t b; b<<x; size_t n=b.size(); b<<55; string d=sx+" onto "+so; h::eval(d);
    try {b>>y;} catch (const std::exception& e) {h::fail("object-unpack-throws",d+e.what()); continue;}
    CHECK(old::show(y.get())==sx,"object-roundtrip",d+" gave "+old::show(y.get())); CHECK(!y || y!=x,"object-new",d); CHECK(b.pos()==n,"object-consumes-exactly",d); CHECK(old::show(other.get())==so,"object-other-owner",d);
    std::vector<O> v, w(h::rnd(3)); for (int k=h::rnd(5); k>0; --k) v.push_back(newo()); pack_t c; c<<v<<56; c>>w; bool ok=v.size()==w.size(); for (size_t k=0; ok && k<v.size(); ++k) ok=old::show(v[k].get())==old::show(w[k].get()); int e=0; c>>e; CHECK(ok && e==56,"object-vector",d);
    // the derived static type
    classdesc::shared_ptr<A> p(h::rnd(4)? makeA(): 0), q(h::rnd(4)? makeA(): 0); string sp=old::show(p.get()); pack_t f; f<<p<<57; f>>q; e=0; f>>e; CHECK(old::show(q.get())==sp && e==57,"object-derived-pointer",sp+" gave "+old::show(q.get()));
    if (x) {O k(x->cloneT()); CHECK(k!=x && old::show(k.get())==sx,"object-clone",sx);}
    // a number that is no type, and a type that is not the one wanted
    if (i%4==0) {
      int ids[]={-2,-1000000,100,1<<30,-2147483647-1,int(factory().size())+1}; pack_t g; g<<ids[h::rnd(6)]<<1<<2; O keep=newo(), z=keep; bool t=false; try {g>>z;} catch (const std::exception&) {t=true;} CHECK(t,"object-bad-type-accepted",""); CHECK(z==keep,"object-bad-type-target","");
      O cc(new C); pack_t j; j<<cc<<1<<2<<3; classdesc::shared_ptr<A> za; t=false; try {j>>za;} catch (const std::exception&) {t=true;} CHECK(t,"object-wrong-type-accepted","");
      pack_t l; l<<x; size_t cut=h::rnd(l.size()); pack_t r; r.packraw(l.data(),cut); t=false; try {r>>z;} catch (const std::exception&) {t=true;} CHECK(t,"object-truncation-accepted","");
    }
  }
  h::section("poly and polyref");
  {
    poly<A> p, q; q.addObject<A>(); E e; e.x=3; p=e; pack_t b; b<<p; bool t=false; try {b>>q;} catch (const std::exception&) {t=true;} CHECK(t && typeid(*q)==typeid(A),"poly-unregistered-type-accepted","");
    p.addObject<B>(); p.addObject<D>();
    bool c=false; try {p.cast<E>();} catch (const std::bad_cast&) {c=true;} CHECK(c,"poly-cast","");
  }
  for (int i=0; i<h::scale(600); ++i) {
    typedef poly<A> PA; string hist; PA v[3]; string s[3]={"null","null","null"};
    for (int n=h::rnd(14); n>=0; --n) {
      int k=h::rnd(3), l=h::rnd(3);
      switch (h::rnd(8)) {
      case 0: {hist+=" addA"; v[k].addObject<A>(); s[k]=old::show(&*v[k]); CHECK(typeid(*v[k])==typeid(A),"poly-addObject",hist); break;}
      case 1: {hist+=" addB"; v[k].addObject<B>(); old::gen(v[k].cast<B>()); s[k]=old::show(&*v[k]); CHECK(typeid(*v[k])==typeid(B),"poly-addObject",hist); break;}
      case 2: {hist+=" addD"; D d; old::gen(d); v[k].addObject<D>(d); s[k]=old::show(&d); break;}
      case 3: {hist+=" "+h::str(k)+"="+h::str(l); v[k]=v[l]; s[k]=s[l]; if (v[k] && k!=l) CHECK(&*v[k]!=&*v[l],"poly-copy-is-deep",hist); break;}
      case 4: {hist+=" copy"; PA c(v[l]); CHECK((c? old::show(&*c): "null")==s[l],"poly-copy",hist); if (c) old::gen(*c); std::swap(c,v[k]); s[k]=v[k]? old::show(&*v[k]): "null"; break;}
      case 5: {hist+=" value"; A* a=makeA(); v[k]=*a; s[k]=old::show(a); delete a; break;}
      case 6: {hist+=" pack"; pack_t b; b<<v[k]<<58; b>>v[l]; int e=0; b>>e; s[l]=s[k]; CHECK(e==58,"poly-stream",hist); break;}
      default: {hist+=" self"; if (v[k]) v[k]=*v[k]; break;}
      }
      for (int j=0; j<3; ++j) {string g=v[j]? old::show(&*v[j]): "null"; CHECK(g==s[j],"poly-value",hist+" "+h::str(j)+" is "+g+" not "+s[j]);}
    }
    h::eval(hist);
    polyref<A> a, b, c; a.addObject<B>(); B& ab=a.cast<B>(); old::gen(ab); b=a; CHECK(&*b==&*a && b==a,"polyref-shares",""); c.addObject<A>(); pack_t k; k<<a<<59; k>>c; int e=0; k>>e; CHECK(old::show(&*c)==old::show(&ab) && &*c!=&ab && e==59,"polyref-roundtrip",old::show(&ab)+" gave "+old::show(&*c));
  }
}
