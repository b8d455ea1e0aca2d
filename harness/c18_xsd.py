#!/usr/bin/env python3
"""C18: the XML schema that classdesc generates, for random classes: it is a valid schema, it describes the class (checked against the
classes this program made up, not against classdesc), and it accepts what xml_pack writes and rejects what xml_pack cannot have written"""
import os, sys, re, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import *

XS = '{http://www.w3.org/2001/XMLSchema}'
FUND = {'bool': 'boolean', 'char': 'string', 'signed char': 'string', 'unsigned char': 'string', 'short': 'short', 'int': 'int', 'long': 'long',
        'unsigned short': 'unsignedShort', 'unsigned int': 'unsignedInt', 'unsigned long': 'unsignedLong', 'float': 'float', 'double': 'double', 'std::string': 'string'}
BAD = {'boolean': 'maybe', 'short': '40000', 'int': '3000000000', 'long': '1e5', 'unsignedShort': '-2', 'unsignedInt': '-1', 'unsignedLong': 'x', 'float': '1,5', 'double': 'one'}


class Cls:
    def __init__(s, ns, name, base): s.ns, s.name, s.parent, s.mem, s.onbase = ns, name, base, [], False
    full = property(lambda s: (s.ns + '::' if s.ns else '') + s.name)
    # with -onbase a base class is an element of its own, without it its members come first
    base = property(lambda s: None if s.onbase else s.parent)
    def elements(s): return ([('base_' + re.sub('[^a-zA-Z0-9]', '_', '::' + s.parent.full), ('c', s.parent))] if s.parent and s.onbase else []) + s.mem


class Enum:
    def __init__(s, ns, name, keys): s.ns, s.name, s.keys = ns, name, keys
    full = property(lambda s: (s.ns + '::' if s.ns else '') + s.name)


def cpp(t):
    k = t[0]
    if k == 'f': return t[1]
    if k in 'ec': return t[1].full
    if k == 'seq': return 'std::%s<%s >' % (t[1], cpp(t[2]))
    if k == 'map': return 'std::%s<%s,%s >' % (t[1], cpp(t[2]), cpp(t[3]))
    if k == 'pair': return 'std::pair<%s,%s >' % (cpp(t[1]), cpp(t[2]))
    if k == 'tup': return 'std::tuple<%s >' % ','.join(cpp(x) for x in t[1])
    if k == 'sp': return 'std::shared_ptr<%s >' % cpp(t[1])
    raise KeyError(k)


def elname(t):
    """what xml_pack calls an element of a container"""
    k = t[0]
    if k == 'f': return t[1].split()[-1].split(':')[-1]
    if k in 'ec': return t[1].name
    if k in ('seq', 'map'): return t[1]
    if k == 'tup': return 'tuple'
    return 'pair'


def mkclasses(r, n):
    enums, cls = [], []
    used = set()
    def name(p):
        while True:
            x = p + ''.join(r.choice('abcdxyz') for _ in range(r.randint(1, 5)))
            if x not in used: used.add(x); return x
    def ns(): return r.choice(['', 'n', 'n', 'm::k'])
    for i in range(2): enums.append(Enum(ns(), name('E'), [name('k') for _ in range(r.randint(1, 4))]))
    def basic(): return ('f', r.choice(list(FUND)))
    def key(): return ('f', r.choice(['int', 'std::string', 'short', 'unsigned long', 'char']))
    def elem(d=0):
        q = r.random()
        if q < .3: return basic() if True else None
        if q < .4: return ('e', r.choice(enums))
        if q < .7 and cls: return ('c', r.choice(cls))
        if d < 2:
            q = r.random()
            if q < .4: return ('seq', r.choice(['vector', 'list', 'deque']), nb(elem(d + 1)))
            if q < .6: return ('map', r.choice(['map', 'multimap']), key(), nb(elem(d + 1)))
            if q < .7: return ('seq', r.choice(['set', 'multiset']), key())
            if q < .8: return ('pair', basic(), elem(d + 1))
        return basic()
    def nb(t): return ('f', 'int') if t == ('f', 'bool') else t        # no vector<bool>
    def tup():
        # elements of one name have to be of one type
        e = {}
        for _ in range(r.randint(1, 4)):
            t = elem(1)
            e.setdefault(elname(t), t)
        e = list(e.values())
        if r.random() < .3: e.append(e[0])
        return ('tup', tuple(e))
    for i in range(n):
        base = r.choice(cls) if cls and r.random() < .3 else None
        c = Cls(ns(), name('C'), base)
        for j in range(r.choice([0, 1, 2, 3, 4, 5, 6])):
            q = r.random()
            if q < .12: t = ('arr', [r.randint(1, 3) for _ in range(r.randint(1, 3))], r.choice([basic(), ('e', r.choice(enums))] + ([('c', r.choice(cls))] if cls else [])))
            elif q < .24 and cls: t = ('sp', ('c', r.choice(cls)))
            elif q < .28: t = ('sp', ('c', c))           # refers to itself
            elif q < .32: t = ('seq', 'vector', ('c', c))
            elif q < .40: t = tup()
            elif q < .48: t = ('sp', tup() if r.random() < .5 else ('pair', basic(), elem(1)))
            else: t = elem()
            c.mem.append((name('m'), t))
        cls.append(c)
    return enums, cls


def inns(c, text):
    for x in reversed(c.ns.split('::') if c.ns else []): text = 'namespace %s {%s}' % (x, text)
    return text + '\n'


def header(enums, cls):
    o = '#include <memory>\n#include <tuple>\n#include <string>\n#include <vector>\n#include <list>\n#include <deque>\n#include <map>\n#include <set>\n'
    for e in enums: o += inns(e, 'enum %s {%s};' % (e.name, ', '.join(e.keys)))
    for c in cls:
        o += inns(c, 'struct %s%s {%s};' % (c.name, ': public ' + c.parent.full if c.parent else '',
                  ' '.join('%s %s;' % (cpp(t), m) if t[0] != 'arr' else '%s %s%s;' % (cpp(t[2]), m, ''.join('[%d]' % d for d in t[1])) for m, t in c.mem)))
    return o


def program(enums, cls, docs):
    o = '''#include "xml_pack_base.h"
#include "xsd_generate_base.h"
#include "a.h"
#include "a.cd"
#include "classdesc_epilogue.h"
#include <fstream>
#include <cstdlib>
static unsigned long seed=%d; unsigned rnd(unsigned n) {seed=seed*6364136223846793005ul+1442695040888963407ul; return (seed>>33)%%n;}
static int depth;
''' % R.randrange(1 << 30)
    for e in enums: o += 'void fill(%s& x) {static const %s k[]={%s}; x=k[rnd(%d)];}\n' % (e.full, e.full, ','.join((e.ns + '::' if e.ns else '') + k for k in e.keys), len(e.keys))
    for c in cls: o += 'void fill(%s&);\n' % c.full
    o += '''void fill(std::string& s) {s.clear(); for (unsigned i=rnd(6); i>0; --i) s+=char(32+rnd(95));}
template <class T> typename classdesc::enable_if<classdesc::is_integral<T>,void>::T fill(T& x) {x=T(rnd(2)? rnd(1000): rnd(-1u)*-4294967291ul);}
void fill(char& x) {x='a'+rnd(26);} void fill(signed char& x) {x='A'+rnd(26);} void fill(unsigned char& x) {x='0'+rnd(10);} void fill(bool& x) {x=rnd(2);}
void fill(float& x) {x=int(rnd(2000))*.25-100;} void fill(double& x) {x=(int(rnd(20000))-9999)*(rnd(2)? 1e10: 1e-3);}
template <class T,class A> void fill(std::vector<T,A>& v); template <class T,class A> void fill(std::list<T,A>& v); template <class T,class A> void fill(std::deque<T,A>& v);
template <class T> void fill(std::set<T>& v); template <class T> void fill(std::multiset<T>& v); template <class K,class T> void fill(std::map<K,T>& v); template <class K,class T> void fill(std::multimap<K,T>& v);
template <class T> void fill(std::shared_ptr<T>& v); template <class T,class U> void fill(std::pair<T,U>& v); template <class T,size_t N> void fill(T (&)[N]); template <class... A> void fill(std::tuple<A...>&);
template <class T> void seq(T& v) {++depth; v.resize(depth>4? 0: rnd(4)); for (typename T::iterator i=v.begin(); i!=v.end(); ++i) fill(*i); --depth;}
template <class T,class A> void fill(std::vector<T,A>& v) {seq(v);} template <class T,class A> void fill(std::list<T,A>& v) {seq(v);} template <class T,class A> void fill(std::deque<T,A>& v) {seq(v);}
template <class T> void st(std::set<T>& v) {} 
template <class T> void fill(std::set<T>& v) {v.clear(); for (unsigned i=rnd(4); i>0; --i) {T t; fill(t); v.insert(t);}}
template <class T> void fill(std::multiset<T>& v) {v.clear(); for (unsigned i=rnd(4); i>0; --i) {T t; fill(t); v.insert(t);}}
template <class K,class T> void fill(std::map<K,T>& v) {v.clear(); ++depth; for (unsigned i=depth>4? 0: rnd(4); i>0; --i) {K k; T t; fill(k); fill(t); v.insert(std::make_pair(k,t));} --depth;}
template <class K,class T> void fill(std::multimap<K,T>& v) {v.clear(); ++depth; for (unsigned i=depth>4? 0: rnd(4); i>0; --i) {K k; T t; fill(k); fill(t); v.insert(std::make_pair(k,t));} --depth;}
template <class T> void fill(std::shared_ptr<T>& v) {++depth; v.reset(depth>4 || rnd(3)==0? (T*)0: new T()); if (v) fill(*v); --depth;}
template <class T,class U> void fill(std::pair<T,U>& v) {fill(v.first); fill(v.second);}
template <class... A> void fill(std::tuple<A...>& t) {std::apply([](auto&... x) {(fill(x),...);},t);}
template <class T,size_t N> void fill(T (&v)[N]) {for (size_t i=0; i<N; ++i) fill(v[i]);}
'''
    for c in cls:
        o += 'void fill(%s& x) {%s%s}\n' % (c.full, 'fill(static_cast<%s&>(x)); ' % c.parent.full if c.parent else '', ' '.join('fill(x.%s);' % m for m, t in c.mem))
    o += '''template <class T> void docs(const std::string& f, const std::string& root, classdesc::xsd_generate_t& all) {
  T a=T(); classdesc::xsd_generate_t g; xsd_generate(g,root,a); std::ofstream x((f+".xsd").c_str()); g.output(x,"urn:schema"); x.close();
  for (int i=0; i<%d; ++i) {fill(a); std::ofstream d((f+"."+char('0'+i)+".xml").c_str()); classdesc::xml_pack_t p(d,"urn:schema"); p.prettyPrint=i%%2; xml_pack(p,root,a);}
  xsd_generate(all,root,a); std::ofstream y((f+".all.xsd").c_str()); all.output(y,"urn:schema");
}
int main() {classdesc::xsd_generate_t all;
''' % docs
    for i, c in enumerate(cls): o += '  docs<%s>("d%d","root%d",all);\n' % (c.full, i, i)
    return o + '}\n'


class Schema:
    def __init__(s, f):
        s.root = ET.parse(f).getroot()
        s.types, s.elems = {}, []
        s.twice = []
        for e in s.root:
            if e.tag == XS + 'element': s.elems.append(e)
            else:
                if e.get('name') in s.types: s.twice.append(e.get('name'))
                s.types[e.get('name')] = e


def describes(S, ty, t, seen, path):
    """does the schema type named ty describe t?  returns the first difference or None"""
    if t[0] == 'f':
        return None if ty == 'xs:' + FUND[t[1]] else '%s: %s instead of xs:%s' % (path, ty, FUND[t[1]])
    if (ty, cpp(t) if t[0] != 'arr' else str(t)) in seen: return None
    seen.add((ty, cpp(t) if t[0] != 'arr' else str(t)))
    if not ty.startswith('tns:') or ty[4:] not in S.types: return '%s: type %s is not defined' % (path, ty)
    e = S.types[ty[4:]]
    if t[0] == 'e':
        v = [x.get('value') for x in e.iter(XS + 'enumeration')]
        return None if e.tag == XS + 'simpleType' and sorted(v) == sorted(t[1].keys) else '%s: enumeration %s, not %s' % (path, v, t[1].keys)
    if e.tag != XS + 'complexType': return '%s: %s is not a complexType' % (path, ty)
    if t[0] in ('seq', 'map', 'arr'):
        sq = list(e)
        if len(sq) != 1 or sq[0].tag != XS + 'sequence' or len(sq[0]) != 1: return '%s: %s is not one sequence of one element' % (path, ty)
        n = 1
        if t[0] == 'arr':
            for d in t[1]: n *= d
        want = ('0', 'unbounded') if t[0] != 'arr' else (str(n), str(n))
        if (sq[0].get('minOccurs'), sq[0].get('maxOccurs')) != want: return '%s: occurs %s to %s' % (path, sq[0].get('minOccurs'), sq[0].get('maxOccurs'))
        el = t[2] if t[0] != 'map' else ('pair', t[2], t[3])
        if sq[0][0].get('name') != elname(el): return '%s: elements called %s, not %s' % (path, sq[0][0].get('name'), elname(el))
        return describes(S, sq[0][0].get('type'), el, seen, path + '[]')
    if t[0] == 'pair': mem, base = [('first', t[1]), ('second', t[2])], None
    elif t[0] == 'tup': mem, base = [(elname(x), x) for x in t[1]], None
    else: mem, base = t[1].elements(), t[1].base
    if base:
        x = e.findall(XS + 'complexContent/' + XS + 'extension')
        if len(x) != 1: return '%s: base class missing' % path
        r = describes(S, x[0].get('base'), ('c', base), seen, path + '(base)')
        if r: return r
        e = x[0]
    els = [x for q in e.findall(XS + 'sequence') for x in q if x.tag == XS + 'element']
    if [x.get('name') for x in els] != [m for m, _ in mem]: return '%s: members %s, not %s' % (path, [x.get('name') for x in els], [m for m, _ in mem])
    for x, (m, mt) in zip(els, mem):
        opt = mt[0] == 'sp'
        if (x.get('minOccurs', '1'), x.get('maxOccurs', '1')) != (('0' if opt else '1'), '1'): return '%s.%s: minOccurs %s' % (path, m, x.get('minOccurs'))
        r = describes(S, x.get('type'), mt[1] if opt else mt, seen, path + '.' + m)
        if r: return r


def members(c): return (members(c.base) if c.base else []) + c.elements()


def sites(e, t, out):
    """places of a document where it can be spoiled: (description, function that spoils it)"""
    if t[0] == 'f':
        x = FUND[t[1]]
        if x in BAD: out.append(('%s %r' % (t[1], BAD[x]), lambda: setattr(e, 'text', BAD[x])))
        return
    if t[0] == 'e':
        out.append(('no such enumerator', lambda: setattr(e, 'text', 'none_such')))
        return
    ch = list(e)
    if t[0] in ('seq', 'map', 'arr'):
        el = t[2] if t[0] != 'map' else ('pair', t[2], t[3])
        for x in ch[:6]: sites(x, el, out)
        if ch:
            out.append(('element renamed', lambda: setattr(ch[-1], 'tag', ch[-1].tag + 'x')))
            if t[0] == 'arr': out.append(('array too short', lambda: e.remove(ch[-1]))); out.append(('array too long', lambda: e.append(ch[0])))
        return
    if t[0] == 'sp': return sites(e, t[1], out)
    if t[0] == 'tup':
        for x, y in zip(ch, t[1]): sites(x, y, out)
        return
    mem = [('first', t[1]), ('second', t[2])] if t[0] == 'pair' else members(t[1])
    by = {m: mt for m, mt in mem}
    for i, x in enumerate(ch):
        m = x.tag.split('}')[-1]
        if m not in by: continue
        sites(x, by[m], out)
        if by[m][0] != 'sp': out.append(('member %s missing' % m, lambda x=x: e.remove(x)))
        out.append(('member %s twice' % m, lambda x=x, i=i: e.insert(i, x)))
        out.append(('member %s renamed' % m, lambda x=x: setattr(x, 'tag', x.tag + 'x')))
        if i and ch[i - 1].tag != x.tag: out.append(('members %s, %s swapped' % (ch[i - 1].tag.split('}')[-1], m), lambda x=x, i=i: (e.remove(x), e.insert(i - 1, x))))


ET.register_namespace('', 'urn:schema')


def lint(xsd, docs):
    """{doc: valid?}; None: the schema is no schema"""
    r = sh(['xmllint', '--noout', '--nonet', '--schema', xsd] + docs, timeout=120)
    if 'failed to compile' in r.stderr or 'Schemas parser error' in r.stderr: return None, r.stderr
    return {d: (d + ' validates') in r.stderr for d in docs}, r.stderr


def batch(b):
    r = random.Random(SEED * 1000003 + b)
    d = os.path.join(DIR, 'b%d' % b)
    os.makedirs(d, exist_ok=True)
    enums, cls = mkclasses(r, 7)
    for c in cls: c.onbase = b % 2 == 1
    h = header(enums, cls)
    open(d + '/a.h', 'w').write(h)
    if classdesc(h, ['-nodef', '-typeName', '-respect_private'] + (['-onbase'] if b % 2 else []) + ['xml_pack', 'xsd_generate'], 'a.cd', d) is None: return
    ndocs = 4
    open(d + '/m.cc', 'w').write(program(enums, cls, ndocs))
    c = gxx('m.cc', 'm', ['-std=c++17'], [], True, d)
    if c.returncode: fail('does-not-compile', errs(c.stderr) + ' :: ' + h); return
    try: q = subprocess.run(['bash', '-c', 'ulimit -s 65536; exec ./m'], cwd=d, capture_output=True, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    except subprocess.TimeoutExpired: fail('generation-hangs', h); return
    if q.returncode: fail('generation-crashes', 'status %d %s on %s' % (q.returncode, q.stderr.decode('latin1')[:300], h)); return
    allx = None
    for i, c in enumerate(cls):
        f = d + '/d%d' % i
        docs = [f + '.%d.xml' % k for k in range(ndocs)]
        for xsd in (f + '.xsd', f + '.all.xsd'):
            tag = 'several-classes' if 'all' in xsd else 'one-class'
            S = None
            ok, err = lint(xsd, docs)
            evaluate(open(xsd).read())
            if ok is None: fail('not-a-schema:' + tag, '%s on class %s of %s' % (err[:300], c.full, h)); continue
            S = Schema(xsd)
            check(not S.twice, 'defined-twice:' + tag, '%s of %s' % (S.twice, h))
            check(S.root.get('targetNamespace') == 'urn:schema', 'target-namespace', str(S.root.attrib))
            if check([x.get('name') for x in S.elems] == ['root%d' % i], 'root-element', '%s for root%d' % ([x.get('name') for x in S.elems], i)):
                df = describes(S, S.elems[0].get('type'), ('c', c), set(), c.full)
                check(df is None, 'describes:' + tag, '%s :: %s' % (df, h))
            for k in docs:
                evaluate(open(k).read())
                check(ok[k], 'rejects-own-document:' + tag, '%s :: %s :: %s' % (err[:300], open(k).read()[:200], h))
        bad = []
        for k in docs:
            try: tree = ET.parse(k)
            except ET.ParseError as x: fail('document-malformed', '%s %s' % (x, open(k).read()[:300])); continue
            out = []
            sites(tree.getroot(), ('c', c), out)
            n = len(out)
            for z in r.sample(range(n), min(n, 4 if not THOROUGH else 10)):
                tree = ET.parse(k)
                out = []
                sites(tree.getroot(), ('c', c), out)
                out[z][1]()
                bf = '%s.bad%d' % (k, z)
                tree.write(bf, encoding='unicode')
                bad.append((bf, out[z][0]))
        if bad:
            ok, err = lint(f + '.xsd', [x for x, _ in bad])
            for x, what in bad:
                evaluate(what + open(x).read())
                if ok is not None: check(not ok[x], 'accepts:' + re.sub(r'm[abcdxyz]+', 'm', what).replace(' ', '-'), '%s :: %s :: %s' % (what, open(x).read()[:200], h))


if __name__ == '__main__':
    section('random classes')
    with ThreadPoolExecutor(8) as ex:
        for _ in ex.map(batch, range(scale(16))): pass
    finish()
