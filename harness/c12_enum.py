#!/usr/bin/env python3
# C12: random enums through classdesc -typeName; symbol tables, packing, text forms
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import *
INTS = [0, 1, 2, 3, 5, 7, 100, 127, 255, 256, 32767, 65535, 2**31 - 1, -1, -2, -100, -2**31 + 1]


def small(ut):
    lo, hi = {'char': (-100, 100), 'unsigned char': (0, 255), 'short': (-32768, 32767), 'unsigned short': (0, 65535), 'unsigned': (0, 2**31 - 1)}.get(ut, (-2**31 + 1, 2**31 - 1))
    return [x for x in INTS if lo <= x <= hi]


ID = [0]


def enum(scope, ind):
    """(declaration, qualified name, C++ constants prefix, [(symbol, value)])"""
    ID[0] += 1
    strong = R.random() < .4
    ut = R.choice([None, None, 'int', 'char', 'unsigned char', 'short', 'unsigned short', 'unsigned']) if strong or R.random() < .2 else None
    nm = R.choice(['E', 'Colour_', 'e', '_x', 'Enum']) + str(ID[0])
    n = R.choice([1, 1, 2, 3, 4, 6, 12, 30])
    pool = small(ut)
    syms, prev = [], -1
    out = []
    top = {'char': 100, 'unsigned char': 255, 'short': 32767, 'unsigned short': 65535}.get(ut, 2**31 - 1)
    for i in range(n):
        s = R.choice(['a', 'Red', 'k_', 'v', 'X__', 'class_', 'enum_', 'T']) + '%d_%d' % (ID[0], i)
        r = R.random()
        if r < .45 and prev + 1 <= top: v = prev + 1; d = s
        elif r < .6 and syms: t, v = R.choice(syms); d = '%s=%s' % (s, t)                 # alias of an earlier one
        elif r < .7 and prev + 4 <= top and syms: v = syms[-1][1] + 3 if syms[-1][1] + 3 <= top else syms[-1][1]; d = '%s=%s%s' % (s, syms[-1][0], '+3' if v != syms[-1][1] else '')
        elif r < .8: v = R.choice([x for x in (1, 2, 4, 8, 64) if x <= top]); d = '%s=(1<<%d)' % (s, v.bit_length() - 1)
        elif r < .85: v = 0x1f; d = R.choice(['%s=0x1F', '%s = 037', '%s= (0x10|0xf)']) % s
        else:
            v = R.choice(pool); d = '%s%s%d' % (s, R.choice(['=', ' = ', '\n =']), v)
        prev = v
        syms.append((s, v)); out.append(d)
    sep = R.choice([',', ', ', ',\n   ', ' , // note, with comma\n  ', ', /* x=1, y */ '])
    body = '%senum %s%s%s %s{%s%s}%s;\n' % (ind, 'class ' if strong else '', nm, (' : ' if R.random() < .5 else ': ') + ut if ut else '', R.choice(['', '\n' + ind]), sep.join(out), R.choice(['', '', ',', ' ', '\n']), R.choice(['', '', ' ']))
    q = scope + nm
    return body, q, (q if strong else scope[:-2]) + '::', syms


def main():
    enums, hdr = [], '#include <string>\n'
    for k in range(scale(9)):
        b, q, p, s = enum('', ''); hdr += b; enums.append((q, p if p != '::' else '::', s))
    for k in range(scale(3)):
        ns = 'ns%d' % k
        hdr += 'namespace %s {\n' % ns
        for j in range(3):
            b, q, p, s = enum(ns + '::', '  '); hdr += b; enums.append((q, p, s))
        b, q, p, s = enum('%s::C%d::' % (ns, k), '    ')
        hdr += '  struct C%d {\n%s    %s member; int i;\n  };\n}\n' % (k, b, q.split('::')[-1]); enums.append((q, p, s))
    for k in range(scale(4)):
        hdr += 'struct S%d {\n' % k
        b, q, p, s = enum('S%d::' % k, '  '); hdr += b + '  %s m;\n' % q.split('::')[-1]; enums.append((q, p, s))
        b, q, p, s = enum('S%d::In::' % k, '    '); hdr += '  struct In {\n%s    %s m;\n  };\n  In in; int i;\n};\n' % (b, q.split('::')[-1]); enums.append((q, p, s))
    # a class holding all namespace-scope ones, to see them as members
    top = [e for e in enums if e[0].count('::') == 0]
    hdr += 'struct All {\n' + ''.join('  %s m%d;\n  char pad%d;\n' % (e[0], i, i) for i, e in enumerate(top)) + '};\n'
    open(DIR + '/e.h', 'w').write(hdr)
    if classdesc(hdr, ['-nodef', '-typeName', 'pack', 'unpack', 'xml_pack', 'xml_unpack', 'dump'], 'e.cd') is None: return
    src = '''#include "h.h"
#include <iostream>
#include "e.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "dump_base.h"
#include "e.cd"
#include "classdesc_epilogue.h"
#include <set>
using namespace classdesc; using std::string;
struct KV {const char* n; long v;};
template <class E> string outs(Enum_handle<E> x) {std::ostringstream o; o<<x; return o.str();}
template <class E> void test(const char* nm, const KV* t, int n)
{
  const EnumKeys<E>& k=enum_keys<E>();
  std::map<int,std::set<string> > byv; for (int i=0; i<n; ++i) byv[t[i].v].insert(t[i].n);
  for (int i=0; i<n; ++i) {
    string d=string(nm)+"::"+t[i].n+"="+h::str(t[i].v);
    E e=E(t[i].v);
    CHECK(k(t[i].n)==e && k.has(string(t[i].n)),"symbol-to-value",d+" gives "+h::str(int(k(t[i].n))));
    string s=k(e); CHECK(byv[t[i].v].count(s) && k.has(e) && k(int(t[i].v))==s && to_string(e)==s,"value-to-symbol",d+" gives "+s);
    if (byv[t[i].v].size()==1) CHECK(s==t[i].n,"unique-value-own-symbol",d+" gives "+s);
    CHECK(k(s)==e,"round-trip",d);
    E x=E(t[(i+1)%n].v); const E c=e;
    Enum_handle<E> hx=enum_handle(x); hx=string(t[i].n); CHECK(x==e && int(hx)==t[i].v && string(hx)==s,"handle-assign-symbol",d);
    x=E(t[(i+1)%n].v); hx=int(t[i].v); CHECK(x==e,"handle-assign-int",d); x=E(t[(i+1)%n].v); hx=e; CHECK(x==e,"handle-assign-enum",d);
    CHECK(outs(enum_handle(x))==s,"handle-out",d);
    {std::ostringstream o; classdesc::operator<<(o,e); CHECK(o.str()==s,"stream-out",d+" gives "+o.str());}
    {x=E(t[(i+1)%n].v); std::istringstream is(string(t[i].n)+" rest"); Enum_handle<E> hh(x); is>>hh; CHECK(x==e,"stream-in",d);}
    {pack_t b; b<<e; int w=t[i].v; CHECK(b.size()==sizeof(int) && memcmp(b.data(),&w,sizeof(int))==0,"packed-as-int",d); x=E(t[(i+1)%n].v); b>>x; CHECK(x==e,"pack-round-trip",d);}
    {std::ostringstream o; {xml_pack_t p(o); xml_pack(p,"root",e);} xml_unpack_t u; std::istringstream is(o.str()); u.parse(is); x=E(t[(i+1)%n].v); xml_unpack(u,"root",x);
     CHECK(x==e && o.str().find(">"+s+"<")!=string::npos,"xml-round-trip",d+" "+o.str());}
    h::eval(d);
  }
  CHECK(k.size()==byv.size(),"key-count",nm);
  std::map<int,std::set<string> >::iterator it=byv.begin(); typename EnumKeys<E>::Siterator s=k.sbegin(); typename EnumKeys<E>::Viterator v=k.vbegin();
  for (; it!=byv.end(); ++it, ++s, ++v) {if (s==k.send() || v==k.vend()) {h::fail("iteration-ends-early",nm); break;} CHECK(it->second.count(*s) && *v==E(it->first) && s->size()==(*s).size(),"iteration",string(nm)+" at "+h::str(it->first)+" gives "+*s);}
  CHECK(s==k.send() && v==k.vend(),"iteration-end",nm);
  CHECK(!k.has(string("no such")) && k(string("no such"))==E(0) && !k.has(string("")),"unknown-symbol",nm);
  for (int u=-3; u<260; ++u) if (!byv.count(u)) CHECK(k(u)=="" && (sizeof(E)<4 || !k.has(E(u))),"unknown-value",string(nm)+" "+h::str(u));
}
'''
    src += 'int main() {h::Main mm;\n'
    for i, (q, p, s) in enumerate(enums):
        src += '  {h::section("%s"); static const KV t[]={%s}; ' % (q, ','.join('{"%s",%d}' % (a, b) for a, b in s))
        src += ' '.join('CHECK(long(::%s%s)==%dL,"oracle","%s");' % (p if p != '::' else '', a, b, a) for a, b in s[:3])
        src += ' test< ::%s >("%s",t,%d);}\n' % (q, q, len(s))
    src += '''  h::section("members of a class");
  for (int r=0; r<h::scale(60); ++r) {All a,b; memset(&a,0,sizeof(a)); memset(&b,0,sizeof(b)); long sz=0;
'''
    for i, e in enumerate(top): src += '    {static const long v[]={%s}; a.m%d=%s(v[h::rnd(%d)]); a.pad%d=97+h::rnd(26); sz+=sizeof(int)+1;}\n' % (','.join(str(b) for a, b in e[2]), i, e[0], len(e[2]), i)
    src += '    pack_t p; p<<a; CHECK(long(p.size())==sz,"packed-class-size",h::str(p.size())); p>>b; bool ok=true;\n'
    for i, e in enumerate(top): src += '    ok=ok && a.m%d==b.m%d && a.pad%d==b.pad%d;\n' % (i, i, i, i)
    src += '''    CHECK(ok,"class-round-trip","class with enum members");
    std::ostringstream o; {xml_pack_t x(o); xml_pack(x,"root",a);} xml_unpack_t u; std::istringstream is(o.str()); u.parse(is); All c; memset(&c,0,sizeof(c)); xml_unpack(u,"root",c); ok=true;
'''
    for i, e in enumerate(top): src += '    ok=ok && a.m%d==c.m%d && o.str().find("<m%d>"+to_string(a.m%d)+"</m%d>")!=string::npos;\n' % (i, i, i, i, i)
    src += '    CHECK(ok,"class-xml-round-trip",o.str());\n    std::ostringstream ds; dump(ds,"a",a); ok=true;\n'
    for i, e in enumerate(top): src += '    ok=ok && ds.str().find("m%d:"+to_string(a.m%d)+"\\n")!=string::npos;\n' % (i, i)
    src += '    CHECK(ok,"class-dump",ds.str()); h::eval(o.str());\n  }\n}\n'
    open(DIR + '/e.cc', 'w').write(src)
    r = gxx('e.cc', 'e', ['-std=c++11'])
    if r.returncode:
        fail('generated-code-does-not-compile', errs(r.stderr)); return
    passon('e')
    # without -typeName an enum is passed on as an int: its neighbours must not matter
    section('enums without -typeName')
    hdr2 = 'enum class Tiny: char {p=1, q=-2};\nenum Plain {a0, a1=77, a2=-5};\nstruct S2 {Plain e; int i; Plain f;};\nstruct S3 {Tiny t; char next[7];};\n'
    open(DIR + '/f.h', 'w').write(hdr2)
    if classdesc(hdr2, ['-nodef', 'pack', 'unpack'], 'f.cd') is None: return
    open(DIR + '/f.cc', 'w').write('''#include "h.h"
#include "f.h"
#include "pack_base.h"
#include "f.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
int main() {h::Main mm; h::section("enums without -typeName");
  for (int k=0; k<100; ++k) {S2 a={Plain(h::rnd(2)? 77: -5),int(h::rnd()),a0}, b={a1,0,a1}; pack_t p; p<<a; CHECK(p.size()==12,"int-enum-size",""); p>>b; CHECK(a.e==b.e && a.i==b.i && a.f==b.f,"int-enum-round-trip",""); h::eval("plain "+h::str(a.i));}
  alignas(8) S3 x={Tiny::q,{1,2,3,4,5,6,7}}; alignas(8) S3 y=x; y.next[0]=9; pack_t p, q; p<<x.t; q<<y.t;
  CHECK(p==q,"small-enum-without-typeName","enum class Tiny: char packed without -typeName: two equal values give different bytes, since 4 bytes are read from a 1 byte object"); h::eval("tiny");
}
''')
    r = gxx('f.cc', 'f', ['-std=c++11'], san=False)
    if r.returncode:
        fail('generated-code-does-not-compile', errs(r.stderr)); return
    passon('f')


main()
finish()
