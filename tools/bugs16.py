P='#include "pack_base.h"\n#include "classdesc_epilogue.h"\n#include "pack_stl.h"\n#include "pack_epilogue.h"\n#include <string.h>\n#include <stdio.h>\nusing namespace classdesc;\n'
X='#include "xml_unpack_base.h"\n#include "classdesc_epilogue.h"\n#include <sstream>\n#include <iostream>\nusing namespace classdesc; using namespace std;\nstatic string get(const char* d, const char* k, const char* init="none") {istringstream i(d); xml_unpack_t u(i); string v=init; u.unpack(k,v); return v;}\n'

B('c02-swappos','C02',[('pack_base.h',"""      std::swap(m_pos,other.m_pos);
""","""      if (m_pos<=m_size) std::swap(m_pos,other.m_pos);
""")],P+"""int main() {pack_t a, b; a<<1<<2<<3; int x; a>>x>>x; b<<7; a.reseti(); a.swap(b); if (b.pos()!=8 || a.pos()!=0) return 1; a>>x; return x!=7;}""",
 needs='swapping a buffer whose read position lies behind its data',breaks='the position stays with the wrong buffer')
B('c08-denorm','C08',[('xml_unpack_base.h',"""      try {x=std::stod(s);}
      catch(...){istoT(s,x);}""","""      try {x=std::stod(s);}
      catch(const std::invalid_argument&){istoT(s,x);}""")],X+"""int main() {istringstream i("<a>4.9406564584124654e-324</a>"); xml_unpack_t u(i); double d=1; try {u.unpack("a",d);} catch (...) {return 1;} return d!=4.9406564584124654e-324;}""",
 std='c++11',needs='a denormal double',breaks='reading back its XML raises an exception')
B('c10-ws','C10',[('xml_unpack_base.h',"""        kind=std::isspace(c)? space: markup;
""","""        kind=c==' ' || c=='\\n' || c=='\\t'? space: markup;
""")],X+"""int main() {try {return get("<a\\r\\nb\\r\\n=\\r\\n'x'>t</a\\r\\n>","a#0.b")!="x";} catch (...) {return 1;}}""",
 needs='a document with DOS line ends between the attributes of a tag',breaks='it is rejected')
B('c10-endtag2','C10',[('xml_unpack_base.h',"""        (tok.length()<scope.length() && scope[scope.length()-tok.length()-1]!='.'))""","""        (tok.length()<scope.length() && scope.find('.')==std::string::npos))""")],X+"""int main() {try {get("<a><xb>t</b></a>","a#0.xb");} catch (const xml_pack_error&) {return 0;} return 1;}""",
 needs='a nested element closed by a tag that is the end of its name',breaks='the ill-formed document is accepted')
B('c10-comment2','C10',[('xml_unpack_base.h','gobbleUntil(leadin.substr(2),"-->");','gobbleUntil(leadin,"-->");')],X+"""int main() {try {return get("<a><!-->-->b</a>","a")!="b";} catch (...) {return 1;}}""",
 needs='a comment whose text starts with >',breaks='the comment ends too early')
B('c02-reseto','C02',[('pack_base.h',"""    virtual pack_t& reseto() {m_pos=0; if (f) fseek(f,0,SEEK_SET); return *this;}""","""    virtual pack_t& reseto() {if (f && m_pos) fseek(f,0,SEEK_SET); m_pos=0; return *this;}""")],P+"""int main() {char n[]="w.dat"; {pack_t w(n,"wb"); w.packraw("abcdefghij",10); int i=0x7a7a7a7a; w.reseto(); w.packraw((char*)&i,4);} pack_t r(n,"rb"); char b[10]; r.unpackraw(b,10); return memcmp(b,"zzzzefghij",10)!=0;}""",
 needs='reseto on a buffer that has written a file',breaks='the next bytes do not go to the beginning of the file')
