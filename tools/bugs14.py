def G(h,cd,args): return '''cat > "$w/e.h" <<'X'
%s
X
"$r/classdesc" -nodef -respect_private -typeName %s <"$w/e.h" >"$w/e.cd" || exit 4
''' % (h,args)
DM='#include <sstream>\n#include "dump_base.h"\n#include "e.h"\n#include "e.cd"\n#include "classdesc_epilogue.h"\nusing namespace std;\ntemplate <class T> int is(const T& a, const char* d, const string& x) {ostringstream o; dump(o,d,a); if (o.str()==x) return 0; cerr<<o.str(); return 1;}\n'
H='#include <string>\n#include <vector>\n#include <map>\n#include <memory>\n'
def M(id,edits,h,demo,needs,breaks,std='c++11'): B(id,'C20',edits,DM+demo,pre=G(H+h,'e.cd','dump'),std=std,needs=needs,breaks=breaks)
DB='dump_base.h'
M('c20-rank3',[(DB,'for (int i=1; i<dims; i++) ncopies*=va_arg(ap,int);','if (dims>1) ncopies*=va_arg(ap,int);')],'struct A {int a[2][2][2];};','int main() {A a={{{{1,2},{3,4}},{{5,6},{7,8}}}}; return is(a,"",":{\\n a: 1 2 3 4 5 6 7 8\\n }\\n");}','an array of rank 3 or more','only the first elements are shown',std='c++98')
M('c20-null',[(DB,'      dump(o,d,string("null"));','      format(o,d);')],'struct A {std::shared_ptr<int> p; int x;};','int main() {A a; a.x=3; return is(a,"",":{\\n p:null\\n x:3\\n }\\n");}','a null shared_ptr','it is not shown, and runs into the next member')
M('c20-setw',[(DB,'      o << std::setw(tab) << "" << *begin;','      o << std::setw(tab+1) << *begin;')],'struct A {std::vector<int> v;};','int main() {A a; a.v.push_back(1); a.v.push_back(23); a.v.push_back(456); return is(a,"",":{\\n v: 1 23 456\\n }\\n");}','numbers of two or more digits','they run together')
M('c20-mapkey',[(DB,'    o << "["<< a.first<<"]=";\n    dump(o,d,a.second);','    if (a.first!=A()) o << "["<< a.first<<"]=";\n    dump(o,d,a.second);')],'struct A {std::map<int,std::string> m;};','int main() {A a; a.m[0]="z"; a.m[2]="t"; return is(a,"",":{\\n m:\\n  {\\n[0]= m[0]:z\\n  }\\n  {\\n[2]= m[1]:t\\n  }\\n }\\n");}','a map from numbers to strings that contains the key 0','that entry is written without its key')
M('c20-empty',[(DB,'    o<<std::endl;\n  }\n\n  template <class I>\n  typename enable_if< Not','    if (tab) o<<std::endl;\n  }\n\n  template <class I>\n  typename enable_if< Not')],'struct A {std::vector<int> v;};','int main() {vector<int> v(2,7); ostringstream o; {classdesc::dump_t t(o); dump(t,"v",v);} A a; return is(a,"",":{\\n v:\\n }\\n") || (o.str()!="v:77\\n");}','a container of numbers dumped at the root','its line is not ended')
M('c20-bracetab',[('dump_epilogue.h','        o<<std::setw(tab+2)<<"}"<<std::endl;','        o<<std::setw(tab? tab+2: 0)<<"}"<<std::endl;')],'struct A {int x;};','int main() {A a; a.x=1; return is(a,"",":{\\n x:1\\n }\\n");}','an object at the root','its closing brace is not indented as that of others')
M('c20-lastdot',[(DB,"          tail=c+1;",'          if (c[1]) tail=c+1;')],'struct A {int x;};','int main() {ostringstream o; dump(o,"a.",3); return o.str()==" :3\\n"? 0: 1;}','a path that ends in a dot','the name shown is that of the component before')
