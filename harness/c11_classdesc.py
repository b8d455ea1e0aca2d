#!/usr/bin/env python3
# C11: random class definitions through classdesc with several options; the generated code is run and what it hands over compared
# with what the generator of the class knows it declared
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import *
N = [0]


def new(p):
    N[0] += 1
    return p + str(N[0])


def ident(): return new(R.choice(['a', 'b_', '_c', 'data', 'X', 'is_', 'classy', 'enumerate', 'structure', 'privateer', 'operator_', 'constant', 'virtuality', 'typedefs', 'm', 'statics', 'usingIt', 'friendly', 'templated', 'unionised']))


SIMPLE = ['int', 'double', 'char', 'bool', 'short', 'unsigned', 'unsigned long', 'long long', 'float', 'std::string', 'unsigned char', 'signed char', 'long', 'std::size_t']
ODD = ['/* } */', '// {\n', '/* ; */', '// don\'t\n', '/* "x */', '\n', '/**/', '/* private: */', '// int bogus;\n', '/* class Z { */', '\n#if 1\n', '\n#define FOO_ 1\n', '\t', '/*** **/']
STRS = ['""', '"x"', '";"', '"}"', '"{"', '"/*"', '"//"', '"\\""', '"a,b"', '"\\\\"', '"(("', '"<"', '"int y;"', '"\'"', '"[3]"']
CHARS = ["';'", "'{'", "'}'", "'\"'", "'\\''", "','", "'('", "'='", "'x'", "'\\\\'", "'<'", "'['"]


def odd():
    if R.random() < .12:
        s = R.choice(ODD)
        return s if '#if' not in s else s + '#endif\n'
    return R.choice(['', '', '', ' ', '  '])


class Cls:
    """one class definition and what its descriptor has to hand over"""
    def __init__(s, known, scope, depth=0, templ=False):
        s.key = R.choice(['struct', 'struct', 'class'])
        s.name = new(R.choice(['C', 'Data', 'S_', 'Thing']))
        s.scope = scope
        s.known = known
        s.depth = depth
        s.items = []            # ('kind', name, ...) in order
        s.pub = s.key == 'struct'
        s.out = ''              # out of class definitions
        s.virt = False
        s.methods = {}
        s.nested = []
        s.templ = templ
        s.ints = set()          # members that can be initialised with a number

    @property
    def q(s): return s.scope + s.name

    def type(s):
        """a type spelt in some way"""
        r = R.random()
        if s.templ and r < .3: return R.choice(['T', 'std::vector<T>', 'std::map<int,T>', 'T'])
        if r < .45: return R.choice(SIMPLE)
        if r < .6: return R.choice(['std::vector<int>', 'std::vector<std::vector<int> >', 'std::vector<std::vector<int>>', 'std::map<std::string,int>', 'std::map<int, std::vector<double> >', 'std::pair<int,char>', 'std::pair<std::vector<std::pair<int,int>>,int>', 'std::map<int,std::map<int,std::vector<char>>>', 'std::vector<std::string>', 'std::pair<std::vector<std::vector<int>>, std::map<int,int>>', 'std::pair<const int,std::vector<const char*> >'])
        if r < .7: return R.choice(['int*', 'const char*', 'double *', 'void*', 'const int*', 'char const*', 'int**', 'const double* const*'])
        if r < .85 and s.known: return R.choice(s.known)
        if s.nested and r < .95: return R.choice(s.nested)
        return R.choice(SIMPLE)

    def init(s, t):
        """initialiser text for type t, or ''"""
        b = t.replace('const ', '').strip()
        if R.random() < .6: return ''
        if b in ('int', 'short', 'unsigned', 'unsigned long', 'long long', 'long', 'std::size_t'): return R.choice(['=3', ' = (1+2)*3', '{7}', ' = (1<2) ? 4 : 5', '=0x1F', '{}', '=sizeof(int)', '= \'}\''])
        if b in ('double', 'float'): return R.choice(['=2.5', '{1.5}', '=1e3'])
        if b == 'bool': return R.choice(['=true', '{false}', '=(1<2)', '=1>2'])
        if b in ('char', 'unsigned char', 'signed char'): return '=' + R.choice(CHARS)
        if b == 'std::string': return R.choice(['=%s', '{%s}', '= std::string(%s)']) % R.choice(STRS)
        if b == 'std::vector<int>': return R.choice(['{1,2,3}', '={1,2}', '=std::vector<int>(3,4)', ' = std::vector<int>{1,K2,K3}', '=std::vector<int>(K2,K3)', '={K1,K2,K3,}', '{{1,2}}'])
        if b in ('char*', 'const char*'): return '=' + R.choice(STRS)
        return ''

    def member(s):
        r = R.random()
        acc = s.pub
        if r < .45:                              # one or more declarators
            t = s.type()
            cv = R.choice(['', '', '', '', 'mutable ', 'volatile ' if t in SIMPLE and t != 'std::string' else ''])
            ds = []
            n = R.choice([1, 1, 1, 2, 3])
            for i in range(n):
                nm = ident()
                star = R.choice(['', '', '', '*'])
                if t.rstrip().endswith('*'):
                    if i == 0: star = ''
                    elif 'void' in t or 'const' in t: star = '*'
                ptr = star
                dims = []
                if R.random() < .25: dims = [R.choice([1, 2, 3, 5]) for _ in range(R.choice([1, 1, 2, 3]))]
                ini = ''
                if not dims and not ptr and not (i and t.rstrip().endswith('*')): ini = s.init(t)
                if dims and len(dims) == 1 and t == 'int' and not ptr and R.random() < .4: ini = R.choice(['={1}', '={0,}', '{0}'])
                dt = ''.join('[%s%s%s]' % (R.choice(['', ' ']), R.choice([str(d), 'K%d' % d, '%d+0' % d, '(%d)' % d]) if s.templ is False or R.random() < .9 else str(d), R.choice(['', ' '])) for d in dims)
                ds.append('%s%s%s%s%s%s' % (odd(), ptr, nm, R.choice(['', '', ' ']) if dims else '', dt, ini))
                s.items.append(('array', nm, acc, dims) if dims else ('data', nm, acc))
                if not dims and not ptr and t in ('int', 'long', 'short', 'double'): s.ints.add(nm)
            return '%s%s%s %s%s;' % (odd(), cv, t, (',' + odd()).join(ds), odd())
        if r < .5:                               # reference
            nm = ident()
            t, g = R.choice([('int', 'gi'), ('std::string', 'gs'), ('const int', 'gi'), ('std::vector<int>', 'gv')])
            s.items.append(('ref', nm, acc))
            return '%s& %s=%s;' % (t, nm, g) if R.random() < .5 else '%s &%s = %s;' % (t, nm, g)
        if r < .55:                              # const
            nm = ident()
            t = R.choice(['int', 'double', 'std::string'])
            s.items.append(('data', nm, acc))
            return '%s %s%s;' % (R.choice(['const %s', '%s const']) % t, nm, R.choice(['={}', '=5', '={ }', '{5}', '{}']) if t != 'std::string' else '=%s' % R.choice(STRS))
        if r < .63 and not s.templ:              # static
            nm = ident()
            if R.random() < .4:
                s.items.append(('cstatic', nm, acc, 'int'))
                if MP[0]: s.out += 'const int %s::%s;\n' % (s.q, nm)
                return R.choice(['static const int %s=%d;', 'const static int %s = %d;', 'static int const %s=%d;']) % (nm, R.randrange(9))
            t = R.choice(['int', 'std::string', 'double', 'std::vector<int>'])
            s.items.append(('static', nm, acc))
            s.out += '%s %s::%s%s;\n' % (t, s.q, nm, R.choice(['', '=%s()' % t]))
            return 'static %s %s;' % (t, nm)
        if r < .7:                               # function pointer, member pointer
            nm = ident()
            if R.random() < .6:
                s.items.append(('fptr', nm, acc))
                return R.choice(['void (*%s)(int,double);', 'int (*%s)();', 'int* (*%s)(const std::string&, int (*)(int));', 'std::vector<int> (*%s)(std::map<int,int>);']) % nm
            s.items.append(('data', nm, acc))
            return 'int Plain::*%s;' % nm if R.random() < .5 else 'std::function<int(int,double)> %s;' % nm
        if r < .9: return s.method()
        if r < .94:
            nm = ident()
            if R.random() < .5: s.items.append(('union', nm, acc)); return 'union {int i_; double d_[2]; char c_;} %s;' % nm
            e = new('E')
            s.items.append(('data', nm, acc)); return R.choice(['enum {%s_1,%s_2=5} %s;' % (e, e, nm)] * s.templ or ['enum {%s_1,%s_2=5} %s;' % (e, e, nm), 'enum %s {%s_1, %s_2};\n %s %s;' % (e, e, e, e, nm)]) if s.pub else 'int %s;' % nm
        if r < .97:
            nm = new('Ty')
            s.items.append(('none',))
            t = R.choice(['int', 'std::vector<int>', 'std::map<int,int>', 'double'])
            v = ident(); s.items.append(('data', v, acc))
            return R.choice(['typedef %s %s;\n %s %s;' % (t, nm, nm, v), 'using %s=%s;\n %s %s;' % (nm, t, nm, v), 'typedef int (*%s_f)(int); typedef %s %s; %s %s;' % (nm, t, nm, nm, v)])
        N[0] += 1
        fr = ['friend class Friend%d;' % N[0], 'template <class Fr_> friend class FriendT%d;' % N[0], 'template <class Al_> struct Ignored%d {void f_(); int i_; Al_ u_;};' % N[0] if s.pub and not s.templ else '', 'template <class Al_> using Alias%d=std::vector<Al_>;' % N[0]]
        if 'friend' not in s.methods and not s.templ:
            fr += ['friend bool operator<(const %s& x, const %s& y) {return &x<&y;}' % (s.name, s.name), 'friend bool operator<(const %s&, const %s&);' % (s.name, s.name),
                   'friend std::vector<int> befriend%d(const %s& x, int y) {std::vector<int> r_; r_.push_back(y); return r_;}' % (N[0], s.name)] * 2
        r = R.choice(fr)
        if r.startswith('friend bool'): s.methods['friend'] = 1
        return r

    def ctors(s):
        m = [i[1] for i in s.items if i[0] == 'data' and i[1] in s.ints]
        if not m: return []
        R.shuffle(m)
        return [R.choice(['%s():', '%s(int=3) :', '%s(): ', '%s() noexcept :']) + R.choice([', ', ',', ' ,\n   ']).join(n + R.choice(['()', '(3)', '((2+1)*2)', '{}', '{3}', '{(4)}', '{int{3}}']) for n in m[:R.choice([1, 2, 3])]) + R.choice([' {}', '{}', ' { int l=3; (void)l; }'])] * 3

    def method(s):
        acc = s.pub
        r = R.random()
        body = R.choice(['{}', '{ }', '{if (1) {int i=3; i++;} else {}}', '{const char* s_="}"; (void)s_;}', '{char c_=\'}\'; (void)c_;}', '{struct L {int z;}; L l; (void)l;}', '{for (int i=0; i<3; ++i) {std::vector<std::vector<int>> v; if (v.size()>>1) return;}}',
                         '{int a_[3]={1,2,3}; (void)a_; /* } */ }', '{// }\n}', '{std::string s_(%s); (void)s_;}' % R.choice(STRS), '{auto f_=[](int x){return x;}; f_(2);}'])
        args = R.choice(['', 'int', 'int x', 'const std::string& s=%s' % R.choice(STRS), 'int x=3, double y=2.5', 'std::map<int,int> m=std::map<int,int>()', 'int a[3]', 'int (*f)(int)', 'const std::vector<std::pair<int,int>>& v, char c=%s' % R.choice(CHARS), 'bool b=(1<2)', 'std::function<void(int)> f'])
        if r < .55:
            nm = ident()
            over = R.random() < .15
            const = R.random() < .3
            virt = R.random() < .2 and not s.templ
            stat = not const and not virt and R.random() < .2
            s.virt |= virt
            s.items.append(('over', nm) if over else ('smethod', nm, acc) if stat else ('method', nm, acc))
            pre = 'virtual ' if virt else 'static ' if stat else R.choice(['', '', 'inline '])
            dargs = args
            post = ' const' if const else ''
            ret = 'void'
            outl = R.random() < .3 and 'struct L' not in body and not s.templ and '=' not in args and s.depth == 0
            if outl:
                s.out += 'inline %s %s::%s(%s)%s%s %s\n' % (ret, s.q, nm, args, post, R.choice(['', '\n']), body)
                d = '%s%s %s%s(%s)%s;' % (pre.replace('inline ', ''), ret, '', nm, args, post)
            else: d = '%s%s %s(%s)%s %s%s' % (pre, ret, nm, args, post, '', body)
            if over: d += R.choice(['\n  %s %s(char*, char*) %s' % (ret, nm, body), '\n  %s %s(char*, char*)=delete;' % (ret, nm)])
            if not virt: return d
            return d
        if r < .6:
            return R.choice(['template <class Q_> void %s(const Q_&) {}', 'template <class Q_, int N_> int %s(Q_ (&a)[N_]) {return N_;}']) % ident()
        if r < .7: return R.choice(['void %s()=delete;', 'int %s(double, int)=delete;']) % ident()
        ops = {'operator==': 'bool operator==(const %s& x) const {return this==&x;}' % s.name, 'operator()': 'int operator()(int x) {return x;}', 'operator[]': 'const int& operator[](int i) const {static int z; return z;}', 'operator+': 'int operator+(int x) const {return x;}',
               'operator<': 'bool operator<(const %s& x) const {return this<&x;}' % s.name, 'operator<<': 'int operator<<(int x) {return x;}', 'operator>>': 'int operator>>(int x) {return x;}', 'operator->': '%s* operator->() {return this;}' % s.name, 'operator int': 'operator int() const {return 3;}',
               'operator+=': '%s& operator+=(int) {return *this;}' % s.name, 'operator++': 'int operator++(int) {return 1;}', 'operator!': 'bool operator!() const {return false;}', 'operator,': 'int operator,(int) {return 1;}', 'operator->*': 'int operator->*(int) {return 1;}', 'operator&&': 'bool operator&&(int) {return true;}'}
        if r < .85:
            k = R.choice(list(ops))
            if k in s.methods: return ''
            s.methods[k] = 1
            return ops[k]
        if 'ctor' not in s.methods:
            s.methods['ctor'] = 1
            return R.choice(['%s() {}', '%s()=default;', 'explicit %s(int, double x=3) {}\n  %s() {}' % ('%s', s.name), '%s(const char* a): %s() {}\n  %s() {}' % ('%s', s.name, s.name)] + s.ctors()) % s.name
        if 'dtor' not in s.methods:
            s.methods['dtor'] = 1
            return R.choice(['~%s() {}', 'virtual ~%s() {}']) % s.name if not s.virt else '~%s() {}' % s.name
        return ''

    def define(s, ind=''):
        bases, used = [], set()
        cand = [k for k in s.known if k not in VIRT]
        for b in R.sample(cand, min(len(cand), R.choice([0, 0, 0, 1, 1, 2, 3, 3, 4]))) if s.depth == 0 or R.random() < .3 else []:
            anc = ANC.get(b, {b})
            if anc & used: continue          # an ambiguous base could not be cast to
            used |= anc
            acc = R.choice(['', '', 'public ', 'private ', 'protected ']) if not ONBASE[0] else 'public '
            v = R.choice(['', '', '', 'virtual ']) if not s.templ else ''
            bases.append((b, acc, v))
        if s.templ and R.random() < .4: bases.append((R.choice(['TB<T>', 'TB<std::vector<T> >', 'TB<TB<T>>']), 'public ' if ONBASE[0] else R.choice(['', 'public ']), ''))
        if not s.templ and R.random() < .15: bases.append((R.choice(['TB<int>', 'TB<std::map<int,TB<double> > >', 'std::vector<int>', 'TB<TB<char>>', 'TB2<int,std::vector<double>>']), 'public ' if ONBASE[0] else R.choice(['', 'public ', 'private ']), ''))
        ext, keep = set(used), []
        for b, acc, v in bases:              # library and template bases reached twice are ambiguous too
            if b.startswith(('TB', 'std')):
                c = __import__('re').sub(r'\bT\b', 'int', b).replace(' ', '')
                if c in ext: continue
                ext.add(c)
            keep.append((b, acc, v))
        bases = keep
        ANC[s.q] = ext | {s.q}
        for b, acc, v in bases:
            s.items.append(('base', b, acc.strip() in ('', 'public') if s.key == 'struct' else acc.strip() == 'public'))
            if v: VIRT.add(s.q)
            if not b.startswith(('TB', 'std')) and b in VIRT: VIRT.add(s.q)
        head = '%s%s %s' % (ind, s.key, s.name)
        if bases: head += R.choice([' : ', ': ', ':', ' :\n ']) + R.choice([', ', ',', ' ,\n   ']).join(R.choice([v + a, a + v]) + b for b, a, v in bases)
        lines = []
        for k in range(R.choice([0, 1, 2, 3, 5, 8, 12])):
            if R.random() < .15:
                l = R.choice(['public', 'private', 'protected', 'public'])
                lines.append('%s%s:' % (l, R.choice(['', ' '])))
                s.pub = l == 'public'
            if R.random() < .08 and s.depth < 2 and s.pub and not s.templ:
                c = Cls(s.known, s.q + '::', s.depth + 1)
                t = c.define(ind + '  ')
                lines.append(t.strip())
                CLASSES.append(c)
                s.out += c.out
                c.out = ''
                s.nested.append(c.name)
                if c.virt or c.methods: pass
            lines.append(s.member())
        body = ''.join('%s  %s%s%s\n' % (ind, odd() if R.random() < .2 else '', l, odd() if R.random() < .2 else '') for l in lines if l)
        return '%s%s{%s%s%s};\n' % (head, R.choice(['\n' + ind, ' ', '']), R.choice(['\n', '\n', ' \n']), body, ind)


VIRT = set()
MP = [False]
ONBASE = [False]     # the casts in the generated code only reach public bases
ANC = {}
CLASSES = []


PRE = '''#include <string>
#include <vector>
#include <map>
#include <functional>
enum {K1=1, K2, K3, K4, K5};
static int gi; static std::string gs; static std::vector<int> gv;
struct Plain {int first; double second;};
template <class T> struct TB {T t; int n;};
template <class A, class B> struct TB2 {A ta; std::vector<B> tb;};
'''


def expected(c, q, opt):
    """statements filling v with what the descriptor of class q (object o) has to hand over"""
    r = []
    priv, onbase, mp = '-respect_private' in opt, '-onbase' in opt, '-use_mbr_pointers' in opt
    for it in c.items:
        k = it[0]
        if k in ('none', 'over'): continue
        if priv and not it[2]: continue
        n = it[1]
        if k == 'base': r.append('{typedef %s B_; rt::base(v,(B_&)o,%d);}' % (__import__('re').sub(r'\bT\b', 'int', n) if c.templ else n, onbase))
        elif k == 'array': r.append('rt::array(v,".%s",o.%s%s,"%d:%s");' % (n, n, '[0]' * len(it[3]), len(it[3]), ','.join(map(str, it[3]))))
        elif k == 'union': r.append('rt::array(v,".%s",(char&)o.%s,("1:"+std::to_string(sizeof(o.%s))).c_str());' % (n, n, n))
        elif k in ('fptr', 'method'): r.append('rt::member(v,".%s",o,&C_::%s);' % (n, n))
        elif k == 'data' and mp: r.append('rt::member(v,".%s",o,&C_::%s);' % (n, n))
        elif k == 'static' and mp: r.append('rt::member(v,".%s",o,&C_::%s);' % (n, n))
        elif k in ('data', 'ref', 'static'): r.append('rt::ref(v,".%s",o.%s);' % (n, n))
        elif k == 'cstatic': r.append('rt::cstatic<%s>(v,".%s");' % ('const int*' if mp else 'int', n))
        elif k == 'smethod': r.append('rt::function(v,".%s",&C_::%s);' % (n, n))
    return r


def batch(i, opt):
    global CLASSES
    CLASSES = []
    VIRT.clear()
    ANC.clear()
    MP[0] = '-use_mbr_pointers' in opt
    ONBASE[0] = '-respect_private' not in opt
    hdr, known, insts = PRE, ['Plain'], []
    for k in range(12):
        r = R.random()
        if r < .2:
            c = Cls(known, '', templ=True)
            t = c.define()
            # templates: known classes may be members, T=int
            hdr += 'template <class T%s>%s%s' % (R.choice(['', '', '=int', ', int M_=4', ', class U_=std::vector<int> ']), R.choice(['\n', ' ']), t) + c.out
            insts.append((c, '%s<int>' % c.name))
            continue
        if r < .45:
            ns = [new('ns') for _ in range(R.choice([1, 1, 2]))]
            sc = '::'.join(ns) + '::'
            n0 = len(CLASSES)
            cs, text = [], ''
            for j in range(R.choice([1, 2])):
                c = Cls(known, sc)
                text += c.define('  ')
                cs.append(c)
            out = ''.join(c.out for c in cs)
            hdr += ''.join('namespace %s {%s' % (n, R.choice(['\n', ' '])) for n in ns) + text + '}' * len(ns) + R.choice(['\n', ' // end\n']) + out
            for c in CLASSES[n0:] + cs: insts.append((c, c.q))
            known += [c.q for c in cs]
            continue
        n0 = len(CLASSES)
        c = Cls(known, '')
        hdr += c.define() + c.out
        for x in CLASSES[n0:] + [c]: insts.append((x, x.q))
        known.append(c.q)
    d = os.path.join(DIR, 'b%d' % i)
    os.makedirs(d, exist_ok=True)
    open(d + '/types.h', 'w').write(hdr)
    if classdesc(hdr, ['-nodef'] + opt + ['probe'], 'types.cd', where=d) is None: return None
    src = '#include "probe_base.h"\n#include "types.h"\n#include "types.cd"\n#include "classdesc_epilogue.h"\nint main() {\n'
    for c, q in insts:
        src += '{typedef %s C_; static C_ o_; C_& o=o_; rt::V v;\n%s\nrt::compare("%s",o,v);}\n' % (q, '\n'.join(expected(c, q, opt)), q)
    src += 'printf("COUNT evaluations=%ld distinct=%ld\\n",rt::evals,rt::evals); return 0;}\n'
    open(d + '/m.cc', 'w').write(src)
    return d, opt, hdr


def compile_(b):
    d, opt, hdr = b
    return b, gxx('m.cc', 'm', flags=['-std=c++17', '-fno-access-control'], san=False, where=d)


def main():
    import concurrent.futures as cf
    section('random classes')
    bs = []
    for i in range(scale(14)):
        b = batch(i, [[], ['-respect_private'], ['-onbase'], ['-use_mbr_pointers'], ['-respect_private', '-onbase'], ['-respect_private']][i % 6])
        if b: bs.append(b)
    with cf.ThreadPoolExecutor(6) as p:
        for b, r in p.map(compile_, bs):
            d, opt, hdr = b
            evaluate(' '.join(opt) + hdr[-700:])
            if r.returncode: fail('descriptor-does-not-compile', 'options %s: %s' % (' '.join(opt), errs(r.stderr))); continue
            passon('m', where=d)
    finish()


main()
