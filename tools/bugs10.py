def G(h,cd,args): return '''cat > "$w/e.h" <<'X'
%s
X
"$r/classdesc" -nodef -typeName %s <"$w/e.h" >"$w/e.cd" || exit 4
''' % (h,args)
XP='#include <iostream>\n#include <sstream>\n#include <cstdio>\n#include "xml_pack_base.h"\n#include "xml_unpack_base.h"\n'
EP='#include "classdesc_epilogue.h"\nusing namespace classdesc; using namespace std;\n'
RT=XP+'#include "e.h"\n#include "e.cd"\n'+EP

XD='#include "pack_base.h"\n#include "pack_stl.h"\n#include <string.h>\n'
LB='"$r/xdr_pack.cc" -ltirpc'
PH='#include <string>\n#include "polyBase.h"\n#include "polyPackBase.h"\n#include "factory.h"\n#include "pack_stl.h"\n'
HIER='''struct SB: public classdesc::PolyBase<int>, virtual public classdesc::PolyPackBase {static SB* create(int t); virtual int& val()=0;};
template <int t> struct SD: public classdesc::Poly<SD<t>,SB>, public classdesc::PolyPack<SD<t> > {int v; SD(): v(0) {} int type() const {return t;} int& val() {return v;}};
SB* SB::create(int t) {if (t==1) return new SD<1>; if (t==2) return new SD<2>; throw std::runtime_error("no such type");}
namespace classdesc_access {template <int t> struct access_pack<SD<t> > {template <class U> void operator()(classdesc::pack_t& b, const classdesc::string& d, U& a) {::pack(b,d,a.v);}};
template <int t> struct access_unpack<SD<t> > {template <class U> void operator()(classdesc::pack_t& b, const classdesc::string& d, U& a) {::unpack(b,d,a.v);}};}
'''
B('c07-inplace', 'C07', [('polyAccessPack.h', """        a.reset(T::element_type::create(t));
        a->unpack(x,d);""", """        if (!a.get() || a->type()!=t)
          a.reset(T::element_type::create(t));
        a->unpack(x,d);""")], PH+HIER+EP+'int main() {shared_ptr<SB> a(new SD<1>), b(new SD<1>), c; a->val()=3; b->val()=7; c=b; pack_t p; p<<a; p>>b; return b->val()==3 && c->val()==7? 0: 1;}', std='c++11', needs='a target of the type stored that has a second owner', breaks='the object of the other owner is overwritten')
B('c07-shrink', 'C07', [('object.h', """    if (o->type()>=int(factory().size()))
      factory().resize(o->type()+1);""", """    if (o->type()+1!=int(factory().size()))
      factory().resize(o->type()+1);""")], '#include "object.h"\n#include "pack_base.h"\nstruct P: public classdesc::object {int t; P(int t): t(t) {} int type() const {return t;} classdesc::object* clone() const {return new P(t);} void pack(classdesc::pack_t&) const {} void unpack(classdesc::pack_t&) {}};\n'+EP+'int main() {register_with_factory(classdesc::shared_ptr<classdesc::object>(new P(6))); register_with_factory(classdesc::shared_ptr<classdesc::object>(new P(3))); try {classdesc::shared_ptr<classdesc::object> p(classdesc::object::create(6)); return p->type()!=6;} catch (...) {return 1;}}', std='c++11', needs='types registered in an order other than that of their codes', breaks='types with larger codes are forgotten')
B('c07-lower', 'C07', [('factory.h', """      typename Fmap::const_iterator i=fmap.find(t);""", """      typename Fmap::const_iterator i=fmap.lower_bound(t);""")], PH+'struct F {virtual ~F() {}}; struct F1: public F {}; namespace classdesc {template <> Factory<F,int>::Factory() {registerType<F1>(4);}}\n'+EP+'int main() {Factory<F,int> f; delete f.create(4); try {delete f.create(2); return 1;} catch (const Factory<F,int>::InvalidType&) {return 0;} catch (...) {return 2;}}', std='c++11', needs='an unregistered type before a registered one', breaks='an object of another type is created')
B('c07-xml-inplace', 'C07', [('polyAccessXMLPack.h', """        a.reset(T::element_type::create(type));
        a->xml_unpack(x,d);""", """        if (!a.get() || a->type()!=type)
          a.reset(T::element_type::create(type));
        a->xml_unpack(x,d);""")], '''#include <string>
#include <iostream>
#include <sstream>
#include <cstdio>
#include "polyBase.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "polyXMLBase.h"
struct SB: public classdesc::PolyBase<int>, virtual public classdesc::PolyXMLBase {static SB* create(int t); virtual int& val()=0;};
template <int t> struct SD: public classdesc::Poly<SD<t>,SB>, public classdesc::PolyXML<SD<t> > {int v; SD(): v(0) {} int type() const {return t;} int& val() {return v;}};
SB* SB::create(int t) {return new SD<1>;}
namespace classdesc_access {template <int t> struct access_xml_pack<SD<t> > {template <class U> void operator()(classdesc::xml_pack_t& b, const classdesc::string& d, U& a) {::xml_pack(b,d+".v",a.v);}};
template <int t> struct access_xml_unpack<SD<t> > {template <class U> void operator()(classdesc::xml_unpack_t& b, const classdesc::string& d, U& a) {::xml_unpack(b,d+".v",a.v);}};}
'''+EP+'int main() {classdesc::shared_ptr<SB> a(new SD<1>), b(new SD<1>), c; a->val()=3; b->val()=7; c=b; ostringstream o; xml_pack_t x(o); ::xml_pack(x,"r",a); istringstream i(o.str()); xml_unpack_t u(i); ::xml_unpack(u,"r",b); return b->val()==3 && c->val()==7? 0: 1;}', std='c++11', needs='a target of the type stored that has a second owner', breaks='the object of the other owner is overwritten')

BS='#include "pack_base.h"\n#include "pack_stl.h"\n#include <list>\n#include <map>\n#include <set>\n#include <string.h>\n'
B('c17-int-size', 'C17', [('pack_stl.h', """    if (!x.empty())
      packer.packraw(reinterpret_cast<const char*>(x.data()), 
                     x.size()*sizeof(x[0]));""", """    const int n=x.size()*sizeof(x[0]), block=1<<16;
    for (int i=0; i<n; i+=block)
      packer.packraw(reinterpret_cast<const char*>(x.data())+i, n-i<=block? n-i: n%block);""")], BS+EP+'int main() {pack_t p; BinStream b(p); vector<int> v(40000,7), w; b<<v; try {b>>w;} catch (...) {return 1;} return v==w && p.size()==p.pos()? 0: 1;}', std='c++11', needs='a vector of more than 64KiB', breaks='a block of the wrong size is written')
B('c17-multi', 'C17', [('pack_base.h', """          (*this)>>v;
          o.insert(v);""", """          (*this)>>v;
          if (o.empty() || !(*o.rbegin()==v)) o.insert(v);""")], BS+EP+'int main() {pack_t p; BinStream b(p); multiset<int> v, w; v.insert(1); v.insert(1); v.insert(2); b<<v; b>>w; return v==w? 0: 1;}', std='c++11', needs='a multiset with equal elements', breaks='duplicates are lost')
