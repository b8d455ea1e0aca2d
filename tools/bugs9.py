def G(h,cd,args): return '''cat > "$w/e.h" <<'X'
%s
X
"$r/classdesc" -nodef -typeName %s <"$w/e.h" >"$w/e.cd" || exit 4
''' % (h,args)
XP='#include <iostream>\n#include <sstream>\n#include <cstdio>\n#include "xml_pack_base.h"\n#include "xml_unpack_base.h"\n'
EP='#include "classdesc_epilogue.h"\nusing namespace classdesc; using namespace std;\n'
RT=XP+'#include "e.h"\n#include "e.cd"\n'+EP

XD='#include "pack_base.h"\n#include "pack_stl.h"\n#include <string.h>\n'
LB='"$r/xdr_pack.cc" -ltirpc'
FL='-DXDR_PACK -I/usr/include/tirpc'
B('c04-ushort', 'C04', [('xdr_pack.cc', """  {return (xdr_filter) xdr_u_short;}""", """  {return (xdr_filter) xdr_short;}""")], XD+EP+'int main() {xdr_pack b; unsigned short x=40000; b<<x; return b.size()==4 && memcmp(b.data(),"\\0\\0\\x9c\\x40",4)==0? 0: 1;}', libs=LB, flags=FL, needs='an unsigned short above 32767', breaks='it is encoded with a sign')
B('c04-schar', 'C04', [('xdr_pack.cc', """  xdr_filter XDR_filter(const signed char& x)        
  {return (xdr_filter) xdr_char;}""", """  xdr_filter XDR_filter(const signed char& x)        
  {return (xdr_filter) xdr_u_char;}""")], XD+EP+'int main() {xdr_pack b; signed char x=-3; b<<x; return b.size()==4 && memcmp(b.data(),"\\xff\\xff\\xff\\xfd",4)==0? 0: 1;}', libs=LB, flags=FL, needs='a negative signed char', breaks='it is encoded without its sign')
B('c04-chararray', 'C04', [('pack_base.h', """    for (i=1; i<dims; i++) ncopies*=va_arg(ap,int);
    va_end(ap);
    targ.unpackraw(&arg,ncopies);""", """    for (i=1; i<dims; i++) ncopies*=va_arg(ap,int);
    va_end(ap);
    if (dims<3) targ.unpackraw(&arg,ncopies);
    else for (size_t j=0; j<ncopies; ++j) unpack(targ,string(),(&arg)[j]);""")], XD+'#include "e.h"\n#include "e.cd"\n'+EP+'int main() {xdr_pack b; X x, y; memset(&x,1,sizeof(x)); memset(&y,0,sizeof(y)); b<<x; try {b>>y;} catch (...) {return 1;} return memcmp(&x,&y,sizeof(x))!=0;}', pre=G('struct X {char a[2][2][3]; int b;};','','pack unpack'), libs=LB, flags=FL, needs='a char array of rank 3', breaks='it is not read as it was written, in an xdr_pack')
