#!/usr/bin/env python3
# C14: typeName of random compound types of random classes is their C++ spelling
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import *
BASE = ['bool', 'char', 'short', 'int', 'long', 'signed char', 'unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double', 'std::string', 'std::wstring']
ID = [0]


def ident():
    ID[0] += 1
    return R.choice(['A', 'B_', 'x', 'Foo', '_q', 'Long_name_', 'T', 'struct_', 'enumX', 'const_', 'a', 'Class']) + (str(ID[0]) if R.random() < .8 else 'n%d_' % ID[0])


def header(cpp11):
    """(text, [names of classes and enums], [(name of template, number of parameters)])"""
    text, names, templ = '#include <string>\n', [], []

    def cls(scope, ind, depth):
        nm, t = ident(), ''
        q = scope + nm
        b = '%s%s %s%s {\n%spublic:\n' % (ind, R.choice(['struct', 'class']), nm, (': public ' + R.choice(bases)) if depth == 0 and R.random() < .3 and bases else '', ind)
        for k in range(R.randint(0, 2)):
            if depth < 2 and R.random() < .5: b += cls(q + '::', ind + '  ', depth + 1)
            else: b += '%s  %s m%d;\n' % (ind, R.choice(['int', 'double*', 'std::string']), ID[0] * 10 + k)
        if R.random() < .3: b += enum(q + '::', ind + '  ')
        b += ind + '};\n'
        names.append(q)
        if depth == 0: bases.append(q)
        return b

    def enum(scope, ind):
        nm = ident()
        names.append(scope + nm)
        return '%senum %s%s {%s};\n' % (ind, 'class ' if cpp11 and R.random() < .5 else '', nm, ','.join('e%d_%d' % (ID[0], i) for i in range(R.randint(1, 3))))

    def template(scope, ind):
        nm, n = ident(), R.randint(1, 3)
        var = cpp11 and R.random() < .25
        ps = ['%s %s' % (R.choice(['class', 'typename']), p) for p in ['T', 'U', 'V_1'][:n]]
        if var: ps[-1] = ps[-1].replace(' ', R.choice(['... ', ' ... ', ' ...']), 1)
        templ.append((scope + nm, n, var))
        return '%stemplate <%s> struct %s {%s};\n' % (ind, R.choice([', ', ',']).join(ps), nm, 'T a; int i;' if not (var and n == 1) else 'int i;')

    def scope(q, ind, depth):
        r = ''
        for _ in range(R.randint(2, 4)):
            k = R.random()
            if k < .35: r += cls(q, ind, 0)
            elif k < .5: r += enum(q, ind)
            elif k < .75: r += template(q, ind)
            elif depth < 3:
                n = ident()
                r += '%snamespace %s {\n%s%s}\n' % (ind, n, scope(q + n + '::', ind + '  ', depth + 1), ind)
        return r
    bases = []
    text += scope('::', '', 0) + cls('::', '', 0) + template('::', '') + enum('::', '')
    return text, names, templ


def types(names, templ, std, n):
    """pairs (declaration with a hole for the declarator, spelling)"""
    ONE = ['std::vector', 'std::list', 'std::deque', 'std::set', 'std::multiset', 'classdesc::shared_ptr', 'classdesc::Exclude']
    TWO = ['std::map', 'std::multimap', 'std::pair']
    if std != 'c++98':
        ONE += ['std::unique_ptr', 'std::unordered_set', 'std::unordered_multiset', 'std::weak_ptr']
        TWO += ['std::unordered_map', 'std::unordered_multimap']

    def obj(d):
        """object type without qualifiers, no array"""
        k = R.random() if d > 0 else 0
        if k < .2: return R.choice(BASE + (['char16_t', 'char32_t'] if std != 'c++98' else []))
        if k < .35: return R.choice(names)
        if k < .5:
            t, m, var = R.choice(templ)
            if var: m = max(1, m + R.randint(-1, 2)) if m == 1 else m + R.randint(0, 2)
            return '%s<%s>' % (t, ','.join(val(d - 1) for _ in range(m)))
        if k < .62: return '%s<%s>' % (R.choice(ONE), val(d - 1))
        if k < .72: return '%s<%s,%s>' % (R.choice(TWO), val(d - 1), val(d - 1))
        if k < .76 and std != 'c++98': return 'std::array<%s,%d>' % (val(d - 1), R.choice([1, 2, 17, 1000]))
        if k < .82 and std != 'c++98': return 'std::tuple<%s>' % ','.join(val(d - 1) for _ in range(R.choice([0, 1, 2, 2, 3, 4])))
        return cv(d - 1) + '*'

    def val(d): return obj(d)

    def cv(d):
        t = obj(d)
        if R.random() < .35: return t + ' const' if t.endswith('*') else 'const ' + t
        return t

    def array(t):
        r = ''.join('[%d]' % R.choice([1, 2, 3, 10, 64]) for _ in range(R.randint(1, 4)))
        return t + r

    out = []
    for _ in range(n):
        t = cv(R.randint(1, 4))
        k = R.random()
        if k < .3: t = array(t)
        elif k < .45: t += '&'
        out.append(t)
    return out


PROLOGUE = '''#include "classdesc.h"
#include <string>
#include <iostream>
#include <memory>
#include "h.h"
#include "h.cd"
#include "classdesc_epilogue.h"
static std::string squeeze(const std::string& s)
{
  std::string r;
  for (size_t i=0; i<s.size(); ++i)
    if (s[i]!=' ' || (r.size() && i+1<s.size() && (isalnum(r[r.size()-1]) || r[r.size()-1]=='_') && (isalnum(s[i+1]) || s[i+1]=='_'))) r+=s[i];
  return r;
}
static void t(const std::string& got, const char* want)
{
  std::string g=squeeze(got), w=squeeze(want);
  std::cout<<"EV "<<w<<std::endl;
  if (g!=w) std::cout<<"FAIL name-of-type "<<want<<" is named "<<got<<std::endl;
}
template <class T> struct is_the_type {typedef T type;};
int main() {
'''


def one(k):
    std = ['c++11', 'c++98', 'c++17', 'c++20', 'c++14', 'c++11', 'c++17', 'c++98'][k % 8]
    d = os.path.join(DIR, 't%d' % k)
    os.makedirs(d, exist_ok=True)
    h, names, templ = header(std != 'c++98')
    opt = R.choice([[], ['-respect_private'], ['-use_mbr_pointers'], ['-onbase']])
    cd = classdesc(h, ['-nodef'] + opt + ['-typeName', 'pack'], where=d)
    if cd is None: return None
    open(d + '/h.h', 'w').write(h)
    open(d + '/h.cd', 'w').write(cd)
    src = PROLOGUE
    for n in names: src += '  t(classdesc::typeName< %s >(),"%s");\n' % (n, n)
    for t in types(names, templ, std, 60): src += '  t(classdesc::typeName< %s >(),"%s");\n' % (t.replace('>>', '> >').replace('<::', '< ::').replace('>>', '> >'), t)
    src += '}\n'
    open(d + '/p.cc', 'w').write(src)
    return d, std, h


def build(b):
    d, std, h = b
    return sh(['g++', '-std=' + std, '-w', '-O0', '-DTR1', '-DHAVE_LONGLONG', '-I' + d, '-I' + STAGED, d + '/p.cc', '-o', d + '/p'])


def main():
    import concurrent.futures as cf
    section('random types')
    bs = [b for b in (one(k) for k in range(scale(8))) if b]
    with cf.ThreadPoolExecutor(8) as p:
        for b, r in zip(bs, p.map(build, bs)):
            d, std, h = b
            if r.returncode: fail('does-not-compile', '%s: %s' % (std, ' | '.join([x[x.find('error'):] for x in r.stderr.split('\n') if 'error' in x][:3]))); continue
            o = sh([d + '/p'])
            if o.returncode: fail('crash', str(o.returncode))
            for x in o.stdout.split('\n'):
                if x.startswith('EV '): evaluate(x[3:])
                elif x.startswith('FAIL name-of-type '): fail('name-of-type', x[18:])
    finish()


main()
