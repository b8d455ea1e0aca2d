def G(h,cd,args): return '''cat > "$w/e.h" <<'X'
%s
X
"$r/classdesc" -nodef -typeName %s <"$w/e.h" >"$w/e.cd" || exit 4
''' % (h,args)
XP='#include <iostream>\n#include <sstream>\n#include <cstdio>\n#include "xml_pack_base.h"\n#include "xml_unpack_base.h"\n'
EP='#include "classdesc_epilogue.h"\nusing namespace classdesc; using namespace std;\n'
RT=XP+'#include "e.h"\n#include "e.cd"\n'+EP
B('c08-array-rank4', 'C08', [('xml_pack_base.h', 'for (int i=1; i<dims; i++) ncopies*=va_arg(ap,int); //assume', 'for (int i=1; i<dims && i<4; i++) ncopies*=va_arg(ap,int); //assume')], RT+'int main() {X x, y; for (int i=0; i<32; ++i) ((int*)x.a)[i]=i, ((int*)y.a)[i]=-1; ostringstream o; xml_pack_t p(o); ::xml_pack(p,"root",x); istringstream i(o.str()); xml_unpack_t u(i); ::xml_unpack(u,"root",y); for (int i=0; i<32; ++i) if (((int*)y.a)[i]!=i) return 1; return 0;}', pre=G('struct X {int a[2][2][2][2][2];};','','xml_pack xml_unpack'), needs='an array of rank 5', breaks='only part of the array is written')
B('c08-multimap-order', 'C08', [('xml_unpack_base.h', 'arg.insert(v);', 'arg.insert(arg.lower_bound(keyOf(v)),v);')], XP+EP+'int main() {multimap<int,string> x, y; x.insert(make_pair(1,"a")); x.insert(make_pair(1,"b")); ostringstream o; xml_pack_t p(o); ::xml_pack(p,"root",x); istringstream i(o.str()); xml_unpack_t u(i); ::xml_unpack(u,"root",y); return x==y? 0: 1;}', needs='a multimap with equal keys', breaks='elements with equal keys come back in reverse order')
B('c09-gt', 'C09', [('xml_pack_base.h', """      case '>': return "&gt;";\n""", '')], XP+EP+'int main() {ostringstream o; xml_pack_t p(o); p<<string("a]]>b"); return o.str().find("]]>")==string::npos? 0: 1;}', needs='text containing ]]>', breaks='the document is not well formed')
B('c09-taglevel', 'C09', [('xml_pack_base.h', 'taglevel=l;', 'taglevel++;')], RT+'int main() {D d; d.a=1; d.b=2; ostringstream o; xml_pack_t p(o); ::xml_pack(p,"some.where.deep",d); string s=o.str(); size_t n=0; for (size_t i=s.find("<deep>"); i!=string::npos; i=s.find("<deep>",i+1)) n++; return n==1? 0: 1;}', pre=G('struct A {int a;}; struct D: public A {int b;};','','xml_pack'), needs='a class with a base written under a root path of several components', breaks='the element is repeated')
B('c09-container-elem', 'C09', [('xml_pack_base.h', "while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;\n\n    for (typename T::const_iterator", "if (eName.find(\"::\")!=string::npos) e=eName.c_str()+eName.rfind(':')+1; else e=eName.c_str();\n\n    for (typename T::const_iterator")], XP+EP+'int main() {ostringstream o; xml_pack_t p(o); p<<vector<unsigned long>(1,3); return o.str()=="<root><long>3</long></root>"? 0: 1;}', needs='a container of a type whose name has several words', breaks='element names contain blanks')
B('c10-apos-attr', 'C10', [('xml_unpack_base.h', "char term=c;\n              while ((c=getNoEOF())!=term)", "char term=c;\n              while ((c=getNoEOF())!=term && (c!='\\'' || term!='\"'))")], XP+EP+'int main() {istringstream i("<a b=\\"it\'s\\">x</a>"); try {xml_unpack_t u(i); string s; u.unpack("a",s); return s=="x" && u.firstToken("a#0.b")->second=="it\'s"? 0: 1;} catch (...) {return 1;}}', needs='an apostrophe in an attribute value in double quotes', breaks='the value is cut and the rest misread')
B('c10-doctype-quote', 'C10', [('xml_unpack_base.h', """if (c=='"') inString=!inString;""", """if (c=='"' && level>1) inString=!inString;""")], XP+EP+'int main() {istringstream i("<!DOCTYPE a SYSTEM \\"x>y\\"><a>x</a>"); try {xml_unpack_t u(i); string s; u.unpack("a",s); return s=="x"? 0: 1;} catch (...) {return 1;}}', needs='> in the system identifier of a DOCTYPE', breaks='the DOCTYPE ends too early')
B('c10-hexref', 'C10', [('xml_unpack_base.h', 'long r=std::strtol(cname+1,NULL,10);', 'long r=std::strtol(cname+1,NULL,cname[1]==\'0\' && cname[2]==\'0\' && cname[3]==\'0\'? 0: 10);')], XP+EP+'int main() {istringstream i("<a>&#0009;&#00065;</a>"); try {xml_unpack_t u(i); string s; u.unpack("a",s); return s=="\\tA"? 0: 1;} catch (...) {return 1;}}', needs='a character reference with three leading zeros', breaks='it is read as octal')
