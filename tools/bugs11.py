def G(h,cd,args): return '''cat > "$w/e.h" <<'X'
%s
X
"$r/classdesc" -nodef -typeName %s <"$w/e.h" >"$w/e.cd" || exit 4
''' % (h,args)
XP='#include <iostream>\n#include <sstream>\n#include <cstdio>\n#include "xml_pack_base.h"\n#include "xml_unpack_base.h"\n'
EP='#include "classdesc_epilogue.h"\nusing namespace classdesc; using namespace std;\n'
RT=XP+'#include "e.h"\n#include "e.cd"\n'+EP

XD='#include "pack_base.h"\n#include "pack_stl.h"\n#include <string.h>\n'
LB='"$r/xdr_pack.cc" -ltirpc'
TN='#include "classdesc.h"\n#include <string>\n#include <map>\n#include <vector>\n'
B('c14-multimap-args', 'C14', [('classdesc.h', """    {return "std::multimap<"+typeName<K>()+","+typeName<V>()+">";}""", """    {return "std::multimap<"+typeName<K>()+","+typeName<K>()+">";}""")], TN+EP+'int main() {return typeName<std::multimap<int,std::string> >()!="std::multimap<int,std::string>";}', needs='a multimap whose key and value types differ', breaks='different multimaps have the same name')
B('c14-ulonglong', 'C14', [('classdesc.h', """template <> inline std::string typeName<unsigned long long>()       {return "unsigned long long";}""", """template <> inline std::string typeName<unsigned long long>()       {return "unsigned long";}""")], '#define HAVE_LONGLONG\n'+TN+EP+'int main() {return typeName<std::vector<unsigned long long> >()==typeName<std::vector<unsigned long> >();}', needs='unsigned long long as well as unsigned long', breaks='two types have the same name')
B('c14-rank', 'C14', [('classdesc.h', """      os<<"["<<n<<"]";""", """      os<<"["<<(n&0xffff)<<"]";""")] if 0 else [('classdesc.h', """    {return "std::array<"+typeName<T>()+","+std::to_string(N)+">";}""", """    {return "std::array<"+typeName<T>()+","+std::to_string((unsigned char)(N))+">";}""")], '#include <array>\n'+TN+EP+'int main() {return typeName<std::array<int,300> >()==typeName<std::array<int,44> >();}', std='c++11', needs='a std::array of more than 255 elements', breaks='arrays of different lengths have the same name')
RI='#include <string>\n#include <map>\n#include <vector>\n#include <memory>\n#include <set>\n#include "random_init_base.h"\n'
SRC='struct S: public random_init_t {double v[9]; int n; S(): n(0) {} double rand() {return v[n++];}};\n'
B('c16-del', 'C16', [('random_init_base.h', """    a=char((127-32)*r.rand()+32); // truncate""", """    a=char((128-32)*r.rand()+32); // truncate""")], RI+EP+SRC+"int main() {S s; s.v[0]=.9999; char c=0; random_init(s,string(),c); return c==127;}", needs='a draw close to 1', breaks='an unprintable character')
B('c16-more', 'C16', [('random_init_base.h', """    for (int i=0; i<numElem; ++i)""", """    for (int i=0; i<=numElem; ++i)""")], RI+EP+SRC+"int main() {S s; s.v[0]=.05; s.v[1]=.5; std::set<int> c; random_init(s,string(),c); return c.size()!=0;}", needs='a set or map', breaks='one element more than drawn')
B('c16-inplace', 'C16', [('random_init_epilogue.h', """    a.reset(new typename T::element_type);
    random_init(r,d,*a);""", """    if (!a.get())
      a.reset(new typename T::element_type);
    random_init(r,d,*a);""")], RI+EP+SRC+"int main() {S s; s.v[0]=.5; classdesc::shared_ptr<int> a(new int(-1)), b(a); random_init(s,string(),a); return *b!=-1;}", std='c++11', needs='a target that has another owner', breaks="the other owner's object changes")
B('c16-arrays', 'C16', [('random_init_base.h', """    for (size_t i=0; i<cnt; ++i)""", """    for (size_t i=0; i<ncopies; ++i)""")], RI+EP+SRC+"int main() {S s; for (int i=0; i<9; ++i) s.v[i]=.5; int a[2][3]={{-1,-1,-1},{-1,-1,-1}}; random_init(s,string(),is_array(),a[0][0],2,2,3); return a[1][2]==-1;}", needs='an array of rank 2 or more', breaks='only as many elements as the first dimension are initialised')
B('c16-hook', 'C16', [('random_init_epilogue.h', """    random_initp(r,d,a);
    random_init_normalise(a);""", """    random_init_normalise(a);
    random_initp(r,d,a);""")], RI+"struct P {int n;}; namespace classdesc_access {template <> struct access_random_init<P> {void operator()(classdesc::random_init_t& r, const std::string& d, P& a);};} namespace classdesc {template <> void random_init_normalise(P& a) {a.n=-7;}}\n"+EP+"void classdesc_access::access_random_init<P>::operator()(classdesc::random_init_t& r, const std::string& d, P& a) {random_init(r,d,a.n);}\n"+SRC+"int main() {S s; s.v[0]=.5; P p; random_init(s,string(),p); return p.n!=-7;}", needs='a class with a normalisation hook', breaks='the hook sees the old values, and its result is overwritten')
