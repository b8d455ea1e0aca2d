#!/usr/bin/env python3
# C20: random classes, objects with random values; what dump writes is compared with a description stated here
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import *
from concurrent.futures import ThreadPoolExecutor


def fmt(d): return ' ' * d.count('.') + d[d.rfind('.') + 1:] + ':'
def brace(d, t): return t.rjust(d.count('.') + 2) + '\n'


class T:
    """a type: C++ spelling, set(lvalue, value)->C++ statements, dump(path, value)"""
    fund = False
    def dump(s, d, v): return fmt(d) + s.text(v) + '\n'


class Num(T):
    fund = True
    def __init__(s, cpp, vals): s.cpp, s.vals = cpp, vals
    def rnd(s): return 0 if R.randrange(6) == 0 else s.vals()
    def lit(s, v): return '%d' % v if abs(v) < 1 << 31 else '%dLL' % v if v > -(1 << 63) else '(-9223372036854775807LL-1)'
    def set(s, l, v): return '%s=%s;' % (l, s.lit(v))
    def text(s, v): return str(v)


class Char(Num):
    def __init__(s, cpp='char'): s.cpp = cpp
    def rnd(s): return R.choice('abcxyz019*-.{}')
    def lit(s, v): return "'%s'" % v
    def text(s, v): return v


class Dbl(Num):
    def __init__(s, cpp): s.cpp = cpp
    def rnd(s): return R.choice([0, 1, -2, R.randrange(1000) / 8.0, 1.5, -0.25, 1e20, 2.5e-7])
    def lit(s, v): return repr(float(v))
    def text(s, v):
        return '%g' % v


class Bool(Num):
    cpp = 'bool'
    def __init__(s): pass
    def rnd(s): return R.randrange(2)


class Str_(T):
    cpp = 'std::string'
    def rnd(s): return R.choice(['', 'a', 'hello world', 'x.y', '{', '}', 'a:b', 'q' * R.randrange(30)])
    def set(s, l, v): return '%s="%s";' % (l, v)
    def lit(s, v): return 'std::string("%s")' % v
    def text(s, v): return v


class Enum(T):
    def __init__(s, cpp, syms, scoped): s.cpp, s.syms, s.scoped = cpp, syms, scoped
    def rnd(s): return R.choice(s.syms)
    def lit(s, v): return (s.cpp + '::' if s.scoped else s.cpp.rsplit('::', 1)[0] + '::' if '::' in s.cpp else '') + v
    def set(s, l, v): return '%s=%s;' % (l, s.lit(v))
    def dump(s, d, v): return fmt(d) + '{\n' + fmt(d) + v + '\n' + brace(d, '}')


class Seq(T):
    def __init__(s, kind, e): s.kind, s.e, s.cpp = kind, e, 'std::%s<%s >' % (kind, e.cpp)
    def rnd(s):
        v = [s.e.rnd() for i in range(R.choice([0, 1, 1, 2, 3, 5]))]
        if s.kind in ('set', 'multiset'):
            v.sort(key=lambda x: ord(x) if isinstance(s.e, Char) else x.encode() if isinstance(x, str) else x)
            if s.kind == 'set': v = [x for i, x in enumerate(v) if i == 0 or x != v[i - 1]]
        return v
    def set(s, l, v):
        if s.kind in ('set', 'multiset'): return ''.join('%s.insert(%s);' % (l, s.e.lit(x)) for x in v)
        if isinstance(s.e, Num): return ''.join('%s.push_back(%s);' % (l, s.e.lit(x)) for x in v)
        return ''.join('%s.push_back(mk<%s >());%s' % (l, s.e.cpp, s.e.set(l + '.back()', x)) for x in v)
    def dump(s, d, v): return elements(s.e, d, v)


def elements(e, d, v):
    if e.fund: return fmt(d) + ''.join(' ' * d.count('.') + e.text(x) for x in v) + '\n'
    return fmt(d) + '\n' + ''.join(brace(d, '{') + e.dump('%s[%d]' % (d, i), x) + brace(d, '}') for i, x in enumerate(v))


class Pair(T):
    def __init__(s, a, b): s.a, s.b, s.cpp = a, b, 'std::pair<%s,%s >' % (a.cpp, b.cpp)
    def rnd(s): return (s.a.rnd(), s.b.rnd())
    def set(s, l, v): return s.a.set(l + '.first', v[0]) + s.b.set(l + '.second', v[1])
    def dump(s, d, v):
        k = '[' + s.a.text(v[0]) + ']=' if s.a.fund else s.a.dump('[.' + d + ']=', v[0])
        if s.a.fund and s.b.fund: return k + s.b.text(v[1])
        return k + (s.b.dump(d, v[1]) if not s.b.fund or not s.a.fund else '')


TMP = [0]


class Map(T):
    def __init__(s, kind, a, b): s.kind, s.p, s.cpp = kind, Pair(a, b), 'std::%s<%s,%s >' % (kind, a.cpp, b.cpp)
    def rnd(s): return [(k, s.p.b.rnd()) for k in Seq('multiset' if s.kind == 'multimap' else 'set', s.p.a).rnd()]
    def set(s, l, v):
        if s.kind == 'map': return ''.join('%s[%s];' % (l, s.p.a.lit(k)) + s.p.b.set('%s[%s]' % (l, s.p.a.lit(k)), x) for k, x in v)
        TMP[0] += 1
        t = 't%d' % TMP[0]
        return ''.join('{%s %s=mk<%s >();%s %s.insert(std::make_pair((%s)(%s),%s));}' % (s.p.b.cpp, t, s.p.b.cpp, s.p.b.set(t, x), l, s.p.a.cpp, s.p.a.lit(k), t) for k, x in v)
    def dump(s, d, v): return elements(s.p, d, v)


class Arr(T):
    def __init__(s, e, dims): s.e, s.dims = e, dims
    def decl(s, n): return '%s %s%s' % (s.e.cpp, n, ''.join('[%d]' % k for k in s.dims))
    def idx(s):
        r = ['']
        for k in s.dims: r = [x + '[%d]' % i for x in r for i in range(k)]
        return r
    def rnd(s): return [s.e.rnd() for i in s.idx()]
    def set(s, l, v): return ''.join(s.e.set(l + i, x) for i, x in zip(s.idx(), v))
    def dump(s, d, v): return elements(s.e, d, v)


class Ptr(T):
    def __init__(s, e, cpp): s.e, s.cpp = e, '%s<%s >' % (cpp, e.cpp)
    def rnd(s): return R.choice([None, s.e.rnd(), s.e.rnd()])
    def set(s, l, v): return '' if v is None else '%s.reset(new %s());%s' % (l, s.e.cpp, s.e.set('(*%s)' % l, v))
    def dump(s, d, v): return fmt(d) + 'null\n' if v is None else s.e.dump(d, v)


class Excl(T):
    def __init__(s, e): s.e, s.cpp = e, 'classdesc::Exclude<%s >' % e.cpp
    def rnd(s): return None
    def set(s, l, v): return ''
    def dump(s, d, v): return ''


class Static(T):
    def __init__(s, v): s.v = v
    def decl(s, n): return 'static const int %s=%d' % (n, s.v)
    def rnd(s): return s.v
    def set(s, l, v): return ''
    def dump(s, d, v): return fmt(d) + str(v) + '\n'


class Class(T):
    def __init__(s, cpp, bases, mem): s.cpp, s.bases, s.mem = cpp, bases, mem
    def rnd(s): return [b.rnd() for b in s.bases], [t.rnd() for n, t in s.mem]
    def set(s, l, v): return ''.join(b.set('static_cast<%s&>(%s)' % (b.cpp, l), x) for b, x in zip(s.bases, v[0])) + ''.join(t.set(l + '.' + n, x) for (n, t), x in zip(s.mem, v[1]))
    def dump(s, d, v): return fmt(d) + '{\n' + ''.join(b.dump(d, x) for b, x in zip(s.bases, v[0])) + ''.join(t.dump(d + '.' + n, x) for (n, t), x in zip(s.mem, v[1])) + brace(d, '}')


def numbers(std):
    r = [Num('int', lambda: R.choice([0, 1, -1, 77, R.randrange(-2**31, 2**31)])), Num('unsigned', lambda: R.randrange(2**31)), Num('short', lambda: R.randrange(-2**15, 2**15)), Num('unsigned short', lambda: R.randrange(2**16)),
         Num('long', lambda: R.randrange(-2**62, 2**62)), Num('unsigned long', lambda: R.randrange(2**62)), Num('long long', lambda: R.randrange(-2**62, 2**62)), Char(), Char('signed char'), Char('unsigned char'), Bool(), Dbl('double'), Dbl('float')]
    return r


class Prog:
    def __init__(s, k):
        s.k, s.std = k, R.choice(['c++98', 'c++11', 'c++11', 'c++17'])
        s.num = numbers(s.std)
        s.classes, s.text = [], '#include <string>\n#include <vector>\n#include <list>\n#include <deque>\n#include <set>\n#include <map>\n#include <utility>\n#if __cplusplus>=201103L\n#include <memory>\n#endif\n'
        s.enums = []
        for i in range(2):
            sc = s.std != 'c++98' and R.randrange(2)
            n, syms = 'E%d' % i, ['e%d%s' % (i, x) for x in 'abc'[:R.randrange(1, 4)]]
            s.text += 'enum %s%s {%s};\n' % ('class ' if sc else '', n, ', '.join(y if R.randrange(2) else '%s=%d' % (y, 10 * j + 3) for j, y in enumerate(syms)))
            s.enums.append(Enum(n, syms, sc))
        for i in range(5): s.newclass(i)

    def newclass(s, i):
        ns = 'n%d' % i if R.randrange(4) == 0 else ''
        bases = []
        for b in R.sample(s.classes, min(len(s.classes), R.choice([0, 0, 1, 2]))):
            if not any(related(b, c) for c in bases): bases.append(b)
        mem, body = [], ''
        for j in range(R.randrange(0, 7)):
            n, t = 'm%d_%d' % (i, j), s.member()
            if R.randrange(6) == 0: body += '  void f%d(int) {}\n' % j
            body += '  %s;\n' % (t.decl(n) if hasattr(t, 'decl') else '%s %s' % (t.cpp, n))
            mem.append((n, t))
        nm = 'C%d' % i
        kw = 'struct'
        s.text += ('namespace %s {\n' % ns if ns else '') + '%s %s%s {\n%s};\n' % (kw, nm, ': ' + ', '.join('public ' + b.cpp for b in bases) if bases else '', body) + ('}\n' if ns else '')
        s.classes.append(Class((ns + '::' if ns else '') + nm, bases, mem))

    def leaf(s): return R.choice([R.choice(s.num), R.choice(s.num), Str_(), R.choice(s.enums)])
    def elem(s, depth=0):
        c = R.randrange(5)
        if c == 0 and s.classes: return R.choice(s.classes)
        if c == 1 and depth < 2: return s.container(depth + 1)
        return s.leaf()

    def container(s, depth=0):
        if R.randrange(3) == 0: return Map(R.choice(['map', 'multimap']), R.choice([R.choice(s.num[:6]), Str_()]), s.elem(depth + 1))
        k = R.choice(['vector', 'list', 'deque', 'set', 'multiset'])
        if k in ('set', 'multiset'): return Seq(k, R.choice([R.choice(s.num[:6]), Str_()]))
        e = s.elem(depth + 1)
        if k == 'vector' and isinstance(e, Bool): k = 'list'
        return Seq(k, e)

    def member(s):
        c = R.randrange(12)
        if c < 3: return s.leaf()
        if c < 6: return s.container()
        if c == 6: return Arr(R.choice([R.choice(s.num), s.leaf(), s.elem(2)]), [R.randrange(1, 4) for i in range(R.choice([1, 1, 2, 3]))])
        if c == 7 and s.std != 'c++98': return Ptr(s.elem(2), 'std::shared_ptr')
        if c == 8: return Excl(s.leaf())
        if c == 9: return Static(R.randrange(-100, 100))
        if c == 10: return Pair(R.choice([R.choice(s.num[:6]), Str_()]), s.elem(1))
        return R.choice(s.classes) if s.classes else s.leaf()

    def run(s):
        w = os.path.join(DIR, 'd%d' % s.k)
        os.makedirs(w, exist_ok=True)
        open(w + '/e.h', 'w').write('#include "classdesc.h"\n' + s.text)
        if classdesc(s.text, ['-nodef', '-respect_private', '-typeName', 'dump'], 'e.cd', w) is None: return
        body = ''
        for q, (c, v, d, how) in enumerate(s.cases):
            body += '{%s a=mk<%s >(); %s std::cout<<"@@%d\\n"; ' % (c.cpp, c.cpp, c.set('a', v), q)
            body += {0: 'dump(std::cout,"%s",a);', 1: 'const %s& b=a; dump(std::cout,"%%s",b);' % c.cpp, 2: 'classdesc::dump_t t; dump(t,"%s",a);', 3: 'std::ostringstream o; {classdesc::dump_t t(o); t<<"("; dump(t,"%s",a); t<<")";} std::cout<<o.str();', 4: 'std::ostringstream o; o.width(0); dump(o,"%s",a); std::cout<<o.str();'}[how] % d
            body += '}\n'
        open(w + '/t.cc', 'w').write('#include "dump_base.h"\n#include "e.h"\n#include "e.cd"\n#include "classdesc_epilogue.h"\n#include <sstream>\ntemplate <class T> T mk() {return T();}\nint main() {\n%sstd::cout<<"@@end\\n"; return 0;}\n' % body)
        r = gxx('t.cc', 't', ['-std=' + s.std], where=w)
        if r.returncode: fail('does-not-compile', '%s: %s on: %s' % (s.std, errs(r.stderr), s.text)); return
        r = sh([w + '/t'], timeout=60, cwd=w)
        if r.returncode or not r.stdout.endswith('@@end\n'): fail('crash', '%s %s on: %s' % (r.returncode, r.stderr[:600], s.text)); return
        for q, (c, v, d, how) in enumerate(s.cases):
            got = r.stdout.split('@@%d\n' % q, 1)[1].split('@@', 1)[0]
            want = c.dump(d, v)
            if how == 3: want = '(' + want + ')'
            evaluate(want)
            if got != want:
                g, x = got.split('\n'), want.split('\n')
                i = next((i for i in range(min(len(g), len(x))) if g[i] != x[i]), min(len(g), len(x)))
                fail('text', '%s line %d of the dump of a %s is %r instead of %r; on: %s' % (s.std, i + 1, c.cpp, g[i:i + 1], x[i:i + 1], s.text))


def related(a, b):
    """share a base (or one is a base of the other)"""
    def up(c): return {c.cpp} | {y for b in c.bases for y in up(b)}
    return up(a) & up(b)


section('random classes')
P = []
for k in range(scale(10)):
    p = Prog(k)
    p.cases = [(c, c.rnd(), R.choice(['', 'a', 'name', '.x', 'p.q', 'v[3]', '.a.b.c', 'a.', '.', 'p..q']), R.randrange(5)) for c in p.classes for i in range(6)]
    p.cases += [(t, t.rnd(), R.choice(['', 'a', 'name', '.x', 'a.']), R.choice([2, 3])) for i in range(6) for t in [R.choice([p.leaf, p.container])()] if isinstance(t, (Num, Str_, Seq, Map))]
    P.append(p)
with ThreadPoolExecutor(8) as ex: list(ex.map(lambda p: p.run(), P))
finish()
