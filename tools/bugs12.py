def G(h,cd,args): return '''cat > "$w/e.h" <<'X'
%s
X
"$r/classdesc" -nodef -typeName %s <"$w/e.h" >"$w/e.cd" || exit 4
''' % (h,args)
XP='#include <iostream>\n#include <sstream>\n#include <cstdio>\n#include "xml_pack_base.h"\n#include "xml_unpack_base.h"\n'
EP='#include "classdesc_epilogue.h"\nusing namespace classdesc; using namespace std;\n'
RT=XP+'#include "e.h"\n#include "e.cd"\n'+EP

XD='#include "pack_base.h"\n#include "pack_stl.h"\n#include <string.h>\n'
LB='"$r/xdr_pack.cc" -ltirpc'
XS='''#include "xml_pack_base.h"
#include "xsd_generate_base.h"
#include "e.h"
#include "e.cd"
#include "classdesc_epilogue.h"
#include <fstream>
#include <cstdlib>
using namespace classdesc; using namespace std;
template <class T> bool ok(xsd_generate_t& g, T& a) {
 {ofstream o("s.xsd"); xsd_generate(g,"root",a); g.output(o,"urn:x");}
 {ofstream o("d.xml"); xml_pack_t p(o,"urn:x"); xml_pack(p,"root",a);}
 return system("xmllint --noout --nonet --schema s.xsd d.xml")==0;}
'''
CD='-respect_private xml_pack xsd_generate'
H='#include <string>\n#include <vector>\n#include <map>\n#include <memory>\n'
XB='xsd_generate_base.h'
B('c18-two-bases', 'C18', [(XB, '          else if (typeBeingAddedTo.back().baseClass!=base)', '          else if (typeBeingAddedTo.back().baseClass.length()<base.length())')], XS+'int main() {C a; xsd_generate_t g; try {return ok(g,a)? 0: 1;} catch (const std::exception&) {return 0;}}', pre=G(H+'struct A {int x;}; struct B {int y;}; struct C: public A, public B {int z;};','e.cd',CD), std='c++11', needs='a class with two base classes', breaks='the second base class is dropped from the schema without notice')
B('c18-output-twice', 'C18', [(XB, '      written.clear(); \n', '')], XS+'int main() {A a; B b; xsd_generate_t g; return ok(g,a) && ok(g,b)? 0: 1;}', pre=G(H+'struct A {int x;}; struct B {A y;};','e.cd',CD), std='c++11', needs='a generator whose schema is output a second time', breaks='definitions output before are missing')
B('c18-elem-nested', 'C18', [(XB, '''    string eName=typeName<typename T::value_type>().c_str();
    eName=eName.substr(0,eName.find('<')); //trim''', '''    string eName=typeName<typename T::value_type>().c_str();
    eName=eName.substr(0,eName.rfind('<')); //trim''')], XS+'int main() {A a; a.x.resize(2); a.x[1][3].resize(1); xsd_generate_t g; return ok(g,a)? 0: 1;}', pre=G(H+'struct A {std::vector<std::map<int,std::vector<int> > > x;};','e.cd',CD), std='c++11', needs='a container of elements of a template of a template', breaks='elements are named after the inner template')
B('c18-ulong', 'C18', [(XB, 'inline string xsd_typeName<unsigned long>() {return "xs:unsignedLong";}', 'inline string xsd_typeName<unsigned long>() {return "xs:long";}')], XS+'int main() {A a; a.x=-1ul; xsd_generate_t g; return ok(g,a)? 0: 1;}', pre=G(H+'struct A {unsigned long x;};','e.cd',CD), std='c++11', needs='a value of 2^63 or more', breaks='the schema rejects it')
B('c18-desc-front', 'C18', [(XB, '        return typeBeingAddedTo.back().description;', '        return typeBeingAddedTo.front().description;')], XS+'int main() {A a; xsd_generate_t g; return ok(g,a)? 0: 1;}', pre=G(H+'struct B {int x;}; struct C: public B {int y;}; struct A {C c;};','e.cd',CD), std='c++11', needs='a member of a class with a base class', breaks='the base class is taken for a member')
B('c18-open-complete', 'C18', [(XB, '''      if (!typeBeingAddedTo.empty() && !typeBeingAddedTo.back().complete)
        {
          if (typeBeingAddedTo.back().baseClass.empty())
            {
              // classes''', '''      if (!typeBeingAddedTo.empty())
        {
          if (typeBeingAddedTo.back().baseClass.empty())
            {
              // classes''')], XS+'int main() {A a; xsd_generate_t g; return ok(g,a)? 0: 1;}', pre=G(H+'struct B {int x;}; struct C: public B {int y;}; struct A {C c; C d;};','e.cd',CD), std='c++11', needs='a class with a base class met twice', breaks='the base class is added to the completed definition')
