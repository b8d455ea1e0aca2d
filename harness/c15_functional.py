#!/usr/bin/env python3
"""C15 on the real code: randomly generated signatures (arity 0..20), called through apply, bound methods, buffers and PackFunctor, in C++98, C++11, C++17 and with the unrolled definitions"""
from gen import *
TY = ['int', 'long', 'double', 'std::string', 'const std::string&', 'bool', 'char', 'const int&', 'short', 'unsigned', 'const double&', 'V', 'const V&']
PRE = '''
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <functional>
#include "pack_base.h"
#include "pack_stl.h"
#include "function.h"
#include "classdesc_epilogue.h"
#include "h.h"
#if __cplusplus>=201703L
#define NE noexcept
#else
#define NE
#endif
#if __cplusplus>=201103L && !defined(USE_UNROLLED)
#define VARIADIC 1
#else
#define VARIADIC 0
#endif
using namespace std; using namespace classdesc; using namespace classdesc::functional;
typedef vector<int> V;
string show(const V& v) {string r="["; for (size_t i=0; i<v.size(); ++i) r+=h::str(v[i])+","; return r+"]";}
string show(const string& s) {return "'"+s+"'";}
template <class T> string show(const T& x) {return h::str(x);}
string log_; int calls;
struct Ex {};
// an element of an argument vector, convertible to everything
struct Any {long v; operator int() const {return v;} operator long() const {return v;} operator double() const {return v/4.0;} operator string() const {return "s"+h::str(v);}
  operator bool() const {return v&1;} operator char() const {return 'a'+v%26;} operator short() const {return v;} operator unsigned() const {return v;} operator V() const {return V(v%5,v);}};
template <class T> string conv(long v) {Any a={v}; T x=a; return show(x);}
struct ArgV {vector<Any> a; Any operator[](size_t i) const {if (i>=a.size()) {h::fail("argument-index","element "+h::str(i)+" of "+h::str(a.size())+" arguments read"); return Any();} return a[i];}};
template <class T> T mk() {Any a={long(h::rnd(1000))}; return a;}
'''


def program(mode_unrolled, std, sigs, special=False):
    o = [PRE]
    pl = lambda ts: ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts))
    body = lambda nm, ts, ret: '{log_+="%s("; %s log_+=")"; calls++; %s}' % (nm, ' '.join('log_+=show(a%d)+";";' % i for i in range(len(ts))), ret)
    bare = lambda t: t.replace('const ', '').replace('&', '')
    meths = []
    for k, ts in enumerate(sigs):
        o.append('long f%d(%s) %s' % (k, pl(ts), body('f%d' % k, ts, 'return %d;' % (100 + k))))
        o.append('long g%d(%s) NE %s' % (k, pl(ts), body('g%d' % k, ts, 'return %d;' % (100 + k))))
        o.append('string s%d(%s) %s' % (k, pl(ts), body('s%d' % k, ts, 'return "r%d";' % k)))
        o.append('void v%d(%s) %s' % (k, pl(ts), body('v%d' % k, ts, '')))
        for m, q in (('m', ''), ('c', ' const'), ('n', ' NE'), ('cn', ' const NE')):
            meths.append('  long %s%d(%s)%s %s' % (m, k, pl(ts), q, body('%s%d@"+h::str(id)+"' % (m, k), ts, 'return %d+id;' % (200 + k))))
            meths.append('  void v%s%d(%s)%s %s' % (m, k, pl(ts), q, body('v%s%d@"+h::str(id)+"' % (m, k), ts, '')))
        meths.append('  static long st%d(%s) %s' % (k, pl(ts), body('st%d' % k, ts, 'return 7;')))
    o.append('struct C {int id; int b(int) {return 0;}\n' + '\n'.join(meths) + '\n  };\nstruct D: public C {int z;};')
    o.append('''string res_;
void beg() {log_=""; calls=0; res_="";}
void thrown(std::exception& e) {res_=string("threw ")+e.what();}
void end(const char* wh, const string& wl, const char* wr) {h::check(log_==wl,"call",string(wh)+" called "+log_+", expected "+wl); h::check(res_==wr,"result",string(wh)+" gave "+res_+", expected "+wr); h::eval(string(wh)+log_);}
void endn(const char* wh) {h::check(res_.substr(0,5)=="threw" && log_.empty(),"uncallable",string(wh)+" "+res_+" and called "+log_); h::eval(wh);}
#define RUN(wh,expr,wl,wr) {beg(); try {res_=show(expr);} catch (std::exception& e) {thrown(e);} end(wh,wl,wr);}
#define RUNV(wh,expr,wl) {beg(); try {expr;} catch (std::exception& e) {thrown(e);} end(wh,wl,"");}
#define NOCALL(wh,expr) {beg(); try {expr;} catch (std::exception& e) {thrown(e);} endn(wh);}''')
    main = []
    for k, ts in enumerate(sigs):
        n = len(ts)
        fn = 't%d' % k
        args = ','.join('x%d' % i for i in range(n))
        want = lambda nm: 'string("%s(")+w+")"' % nm
        m = ['void %s() {h::section("signature %d: (%s)");' % (fn, k, ', '.join(ts))]
        m.append('  C o; o.id=%d; D d; d.id=3; const C co=o; const D cd=d; C p; p.id=9;' % (k + 1))
        for i, t in enumerate(ts): m.append('  %s x%d=mk<%s >();' % (bare(t), i, bare(t)))
        m.append('  string w; %s' % ' '.join('w+=show(x%d)+";";' % i for i in range(n)))
        m.append('  ArgV av; string wa; for (int i=0; i<%d; ++i) {Any a={long(h::rnd(1000))}; av.a.push_back(a);}' % n)
        m.append('  %s' % ' '.join('wa+=conv<%s >(av.a[%d].v)+";";' % (bare(t), i) for i, t in enumerate(ts)))
        rv = 'r'
        m.append('  long r=0; string rs;')
        m.append('  RUN("apply",(apply(&r,f%d,av),r),"f%d("+wa+")","%d");' % (k, k, 100 + k))
        m.append('  RUN("apply of a noexcept function",(apply(&r,g%d,av),r),"g%d("+wa+")","%d");' % (k, k, 100 + k))
        m.append('  RUN("apply",(apply(&rs,s%d,av),rs),"s%d("+wa+")","\'r%d\'");' % (k, k, k))
        m.append('  RUNV("apply",apply((void*)0,v%d,av),"v%d("+wa+")");' % (k, k))
        m.append('  RUN("apply of a static method",(apply(&r,&C::st%d,av),r),"st%d("+wa+")","7");' % (k, k))
        m.append('  RUN("apply of a bound method",(apply(&r,bindMethod(o,&C::m%d),av),r),"m%d@%d("+wa+")","%d");' % (k, k, k + 1, 201 + 2 * k))
        m.append('  RUN("apply of a bound method",(apply(&r,bindMethod(co,&C::c%d),av),r),"c%d@%d("+wa+")","%d");' % (k, k, k + 1, 201 + 2 * k))
        m.append('  RUNV("apply of a bound method",apply((void*)0,bindMethod(o,&C::vm%d),av),"vm%d@%d("+wa+")");' % (k, k, k + 1))
        for ob, oid in (('o', k + 1), ('co', k + 1), ('d', 3), ('cd', 3)):
            for mm in ('m', 'c', 'n', 'cn'):
                if ob in ('co', 'cd') and mm in ('m', 'n'): m.append('  NOCALL("%s of a const object",(bindMethod(%s,&C::%s%d)(%s)));' % (mm, ob, mm, k, args)); continue
                m.append('  RUN("bound method",(bindMethod(%s,&C::%s%d)(%s)),"%s%d@%d("+w+")","%d");' % (ob, mm, k, args, mm, k, oid, 200 + k + oid))
                m.append('  RUNV("bound method",(bindMethod(%s,&C::v%s%d)(%s)),"v%s%d@%d("+w+")");' % (ob, mm, k, args, mm, k, oid))
        m.append('  {bound_method<C,long (C::*)(%s)> b(o,&C::m%d), b2(b); b.rebind(p); RUN("rebound method",b(%s),"m%d@9("+w+")","%d"); RUN("copy of a method bound before",b2(%s),"m%d@%d("+w+")","%d");}' % (', '.join(ts), k, args, k, 209 + k, args, k, k + 1, 201 + 2 * k))
        # buffers
        put = ' '.join('b<<x%d;' % i for i in range(n))
        for fnm, res, q in (('f%d' % k, str(100 + k), 'f%d' % k), ('s%d' % k, "'r%d'" % k, 's%d' % k), ('bindMethod(o,&C::m%d)' % k, str(201 + 2 * k), 'm%d@%d' % (k, k + 1)), ('bindMethod(co,&C::c%d)' % k, str(201 + 2 * k), 'c%d@%d' % (k, k + 1))):
            m.append('  {pack_t b; %s b<<12345; RUN("callOnBuffer",callOnBuffer(b,%s),"%s("+w+")","%s"); int tail=0; b>>tail; CHECK(tail==12345 && b.pos()==b.size(),"arguments-consumed","callOnBuffer"); %s}' % (put, fnm, q, res, ('pack_t e; NOCALL("too few arguments",callOnBuffer(e,%s));' % fnm) if n and 'V' != bare(ts[0]) else ''))
        if n and 'bound' not in '': m.append('  {pack_t b; %s RUNV("callOnBuffer",callOnBuffer(b,v%d),"v%d("+w+")");}' % (put, k, k))
        m.append('  {PackFunctor<pack_t> b; %s RUN("PackFunctor::call",b.call(f%d),"f%d("+w+")","%d");}' % (put, k, k, 100 + k))
        m.append('#if VARIADIC')
        m.append('  {std::function<long(%s)> fo(f%d); RUN("apply of a std::function",(apply(&r,fo,av),r),"f%d("+wa+")","%d"); pack_t b; %s RUN("callOnBuffer of a std::function",callOnBuffer(b,fo),"f%d("+w+")","%d");}' % (', '.join(ts), k, k, 100 + k, put, k, 100 + k))
        if n:
            m.append('  {PackFunctor<pack_t> b; b.template pack<decltype(f%d)>(%s); pack_t c; %s CHECK(b.size()==c.size() && !memcmp(b.data(),c.data(),c.size()),"packed-arguments","pack<F>"); RUN("packed call",b.call(f%d),"f%d("+w+")","%d");}' % (k, args, put.replace('b<<', 'c<<'), k, k, 100 + k))
            m.append('  {PackFunctor<pack_t> b; b.template pack<long(*)(%s)>(%s); b.template pack<long(%s)>(%s); RUN("packed call",b.call(s%d),"s%d("+w+")","\'r%d\'"); RUNV("second packed call",b.call(v%d),"v%d("+w+")"); CHECK(b.pos()==b.size(),"arguments-consumed","two packed calls");}' % (', '.join(ts), args, ', '.join(ts), args, k, k, k, k, k))
            m.append('  {PackFunctor<pack_t> b; b.pack(%s); RUN("packed call",b.call(bindMethod(o,&C::m%d)),"m%d@%d("+w+")","%d");}' % (args, k, k, k + 1, 201 + 2 * k))
        m.append('#endif')
        # traits
        for f, mem, const, r in (('long (*)(%s)', 0, 0, 'long'), ('void (*)(%s) NE', 0, 0, 'void'), ('long (C::*)(%s)', 1, 0, 'long'), ('V (C::*)(%s) const', 1, 1, 'V'), ('string (C::*)(%s) NE', 1, 0, 'string'), ('void (C::*)(%s) const NE', 1, 1, 'void')):
            f = f % ', '.join(ts)
            cs = ['Arity<F>::value==%d' % n, 'is_same<functional::Return<F>::type,%s>::value' % r, 'is_member_function_ptr<F>::value==%d' % mem, 'is_nonmember_function_ptr<F>::value==%d' % (not mem), 'is_const_method<F>::value==%d' % const, 'functional::is_function<F>::value']
            cs += ['is_same<functional::Arg<F,%d>::type,%s >::value' % (i + 1, t) for i, t in enumerate(ts)]
            if mem: cs.append('is_same<ClassOf<F>::type,C>::value')
            m.append('  {typedef %s; %s}' % (f.replace('(*)', '(*F)').replace('(C::*)', '(C::*F)').replace(' NE', '') if 0 else f.replace('(*)', '(*F)').replace('(C::*)', '(C::*F)'), ' '.join('CHECK((%s),"traits","%s for %s");' % (c, c, f) for c in cs)))
        m.append('}')
        o.append('\n'.join(m))
        main.append('  %s();' % fn)
    AR = () if not special else (0, 1, 2, 3, 4, 5, 6, 8, 11, 14, 17, 20) if '98' in std[-1] else range(21) if mode_unrolled else range(10)
    ints = lambda n: ','.join('int a%d' % i for i in range(n))
    st = lambda n: ' '.join('log_+=h::str(a%d)+",";' % i for i in range(n)) + ' calls++;'
    o.append('\n'.join('long if%d(%s) {%s return %d;} void iv%d(%s) {%s}' % (n, ints(n), st(n), n, n, ints(n), st(n)) for n in AR))
    o.append('struct I {int id; ' + '\n'.join('long f%d(%s) {log_+=h::str(id)+":"; %s return %d;} void v%d(%s) {log_+=h::str(id)+":"; %s} long c%d(%s) const {log_+=h::str(id)+":"; %s return %d;} void cv%d(%s) const {log_+=h::str(id)+":"; %s}' % (n, ints(n), st(n), n, n, ints(n), st(n), n, ints(n), st(n), n, n, ints(n), st(n)) for n in AR) + '};')
    o.append('struct IA {size_t n; int operator[](size_t i) const {if (i>=n) h::fail("argument-index",h::str(i)); return 7*i+3;}};')
    o.append('void arities() {h::section("arities"); I o={1}, p={2}; const I co={4}; long r=0;')
    for n in AR:
        w = ''.join('%d,' % (7 * i + 3) for i in range(n)); a = ','.join(str(7 * i + 3) for i in range(n)); pk = ' '.join('b<<%d;' % (7 * i + 3) for i in range(n))
        m = ['{IA ia={%d}; RUN("apply",(apply(&r,if%d,ia),r),"%s","%d"); RUNV("apply",apply((void*)0,iv%d,ia),"%s");' % (n, n, w, n, n, w)]
        for fn, pre, v in (('f', '1:', 0), ('v', '1:', 1), ('c', '1:', 0), ('cv', '1:', 1)):
            m.append(('RUNV("apply of a method",apply((void*)0,bindMethod(o,&I::%s%d),ia),"%s");' % (fn, n, pre + w)) if v else ('RUN("apply of a method",(apply(&r,bindMethod(o,&I::%s%d),ia),r),"%s","%d");' % (fn, n, pre + w, n)))
            m.append(('RUNV("method",bindMethod(o,&I::%s%d)(%s),"%s");' % (fn, n, a, pre + w)) if v else ('RUN("method",bindMethod(o,&I::%s%d)(%s),"%s","%d");' % (fn, n, a, pre + w, n)))
            if fn[0] == 'c': m.append(('RUNV("const method",bindMethod(co,&I::%s%d)(%s),"%s");' % (fn, n, a, '4:' + w)) if v else ('RUN("const method",bindMethod(co,&I::%s%d)(%s),"%s","%d");' % (fn, n, a, '4:' + w, n)))
            else: m.append('NOCALL("const object",(bindMethod(co,&I::%s%d)(%s)));' % (fn, n, a) if not (mode_unrolled and fn == 'v') else '')
        m.append('{bound_method<I,long (I::*)(%s)> b(o,&I::f%d), c(b); b.rebind(p); RUN("rebound",b(%s),"2:%s","%d"); RUN("copy",c(%s),"1:%s","%d");}' % (ints(n), n, a, w, n, a, w, n))
        m.append('{bound_method<I,void (I::*)(%s)> b(o,&I::v%d), c(b); b.rebind(p); RUNV("rebound",b(%s),"2:%s"); RUNV("copy",c(%s),"1:%s");}' % (ints(n), n, a, w, a, w))
        m.append('#if VARIADIC\n{bound_method<I,long (I::*)(%s) const> b(o,&I::c%d), c(b); b.rebind(p); RUN("rebound",b(%s),"2:%s","%d"); RUN("copy",c(%s),"1:%s","%d");}\n{bound_method<I,void (I::*)(%s) const> b(o,&I::cv%d), c(b); b.rebind(p); RUNV("rebound",b(%s),"2:%s"); RUNV("copy",c(%s),"1:%s");}\n#endif' % (ints(n), n, a, w, n, a, w, n, ints(n), n, a, w, a, w))
        m.append('{pack_t b; %s RUN("callOnBuffer",callOnBuffer(b,if%d),"%s","%d"); CHECK(b.pos()==b.size(),"arguments-consumed","callOnBuffer");}' % (pk, n, w, n))
        m.append('{pack_t b; %s RUNV("callOnBuffer",callOnBuffer(b,iv%d),"%s"); CHECK(b.pos()==b.size(),"arguments-consumed","callOnBuffer");}' % (pk, n, w))
        if n: m.append('{pack_t b; %s b.clear(); %s NOCALL("too few arguments",callOnBuffer(b,if%d));}' % (pk, ' '.join(pk.split(' ')[1:]), n))
        m.append('}')
        o.append('\n'.join(m))
    o.append('}')
    main.append('  arities();')
    wide = [('long', 'int'), ('double', 'int'), ('short', 'long'), ('int', 'char'), ('std::string', 'const char*'), ('double', 'float'), ('unsigned', 'unsigned char'), ('bool', 'int'), ('long', 'bool')]
    o.append('#if VARIADIC')
    for k in range(6 if special else 0):
        n = R.randint(1, 7); ch = [R.choice(wide) for _ in range(n)]
        val = lambda f: '"lit%d"' % R.randint(0, 99) if f == 'const char*' else '(%s)(%d)' % (f, R.randint(0, 1) if f == 'bool' else R.randint(0, 100))
        vs = [val(f) for t, f in ch]
        o.append('long w%d(%s) {%s calls++; return %d;}' % (k, ','.join('%s a%d' % (t, i) for i, (t, f) in enumerate(ch)), ' '.join('log_+=show(a%d)+";";' % i for i in range(n)), k))
        o.append('void pw%d() {h::section("argument types differ from parameter types"); PackFunctor<pack_t> b; b.pack<decltype(w%d)>(%s); b<<99; string w; %s RUN("call with converted arguments (%s)",b.call(w%d),w,"%d"); CHECK(b.size()-b.pos()==4,"arguments-consumed","converted arguments");}' % (k, k, ','.join(vs), ' '.join('w+=show((%s)(%s))+";";' % (t, v) for (t, f), v in zip(ch, vs)), ', '.join('%s from %s' % x for x in ch), k, k))
    o.append('#else\n' + ' '.join('void pw%d() {}' % k for k in range(6 if special else 0)) + '\n#endif')
    main += ['  pw%d();' % k for k in range(6 if special else 0)]
    o.append('struct Pr {int f(int* p) {log_+="pointer"; return 1;} int r(int& p) {log_+="ref"; return p++;} int cc(const char* s) {log_+=s; return 3;} int ok(const int& i) {log_+="const ref"; return i;}};')
    o.append('int main() {h::Main mm; for (int i=0; i<h::scale(3); ++i) {\n' + '\n'.join(main))
    o.append('''#if VARIADIC
  {h::section("unacceptable arguments"); Pr p; int x=5; NOCALL("pointer argument",bindMethod(p,&Pr::f)(&x)); NOCALL("reference argument",bindMethod(p,&Pr::r)(x)); CHECK(x==5,"uncallable","argument changed");
   RUN("const char* argument",bindMethod(p,&Pr::cc)("abc"),"abc","3"); RUN("const ref argument",bindMethod(p,&Pr::ok)(x),"const ref","5"); }
#endif
  {CHECK(!functional::is_function<int>::value && !is_member_function_ptr<C>::value && !is_const_method<int C::*>::value && !is_member_function_ptr<int C::*>::value,"traits","not functions"); CHECK((is_same<ClassOf<int C::*>::type,C>::value),"traits","class of a member pointer");}
  }}''')
    return '\n'.join(o)


import concurrent.futures as cf
REGEN = [('17g', ['-I' + STAGED + '/regen', '-std=c++17', '-DUSE_UNROLLED'], 1), ('98g', ['-I' + STAGED + '/regen', '-std=c++98'], 1)] if os.path.isdir(STAGED + '/regen') else []
MODES = REGEN + [('98', ['-std=c++98'], 1), ('11', ['-std=c++11'], 0), ('17', ['-std=c++17'], 0), ('17u', ['-std=c++17', '-DUSE_UNROLLED'], 1)]


def sigs(lo, hi, k, nm=''):
    ns = R.sample(range(lo, hi + 1), k)
    tys = TY if '98' not in nm else [t for t in TY if 'V' not in t and 'string' not in t]      # C++98 cannot tell which classes are default constructible
    return [[R.choice(tys) for _ in range(n)] for n in ns]


jobs = []
for nm, fl, un in MODES:
    jobs.append((nm + 'r', fl, un, []))
    jobs.append((nm + 'a', fl, un, [[]] + sigs(1, 1, 1, nm) + sigs(2, 4, 2, nm)))
    if THOROUGH:
        jobs.append((nm + 'c', fl, un, sigs(5, 9 if not un else 20, 4, nm))); jobs.append((nm + 'd', fl, un, sigs(0, 8, 4, nm)))
    else: jobs.append((nm + 'b', fl, un, sigs(5, 8 if not un else 20, 2, nm)))


def build(j):
    nm, fl, un, sg = j
    open(DIR + '/f%s.cc' % nm, 'w').write(program(un, fl, sg, nm[-1] == 'r'))
    return j, gxx('f%s.cc' % nm, 'f' + nm, fl, [STAGED + '/xdr_pack.o'] if 0 else [])


for nm, fl, un, sg in jobs: pass
with cf.ThreadPoolExecutor(8) as P: res = list(P.map(build, jobs))
for (nm, fl, un, sg), r in res:
    section('%s %s' % (' '.join(fl), ' / '.join('(' + ', '.join(s) + ')' for s in sg)))
    if not check(r.returncode == 0, 'does-not-compile', '%s: %s' % (' '.join(fl), errs(r.stderr))): continue
    passon('f' + nm)
finish()
