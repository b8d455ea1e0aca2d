"""writes tu/functional.cc: one entry point per arity and kind of function"""
T = ['int', 'long', 'const S&', 'double', 'short', 'unsigned char', 'S']
N = 21
NV = 10      # variadic
o = ['''// instantiates /repo/function.h (apply, bound methods, calls on a buffer, PackFunctor) for opaque functions, argument vectors and buffers
// generated by tools/gen_functional_tu.py
#include <stdexcept>
#include <string>
#include <functional>
#include "function.h"
#include "pack_base.h"
#include "classdesc_epilogue.h"
#if __cplusplus>=201703L
#define NE noexcept
#else
#define NE
#endif
#define UNROLLED (defined(USE_UNROLLED) || __cplusplus<201103L)
using namespace classdesc; using namespace classdesc::functional;
struct S {long v;};
struct Any {long v; operator int() const; operator long() const; operator double() const; operator short() const; operator unsigned char() const; operator S() const;};
struct Args {Any operator[](size_t) const;};
struct B {int dummy;};
B& operator>>(B&, int&); B& operator>>(B&, long&); B& operator>>(B&, double&); B& operator>>(B&, short&); B& operator>>(B&, unsigned char&); B& operator>>(B&, S&);
B& operator<<(B&, const int&); B& operator<<(B&, const long&); B& operator<<(B&, const double&); B& operator<<(B&, const short&); B& operator<<(B&, const unsigned char&); B& operator<<(B&, const S&);
extern "C" {''']
def ps(n, names=True): return ', '.join(T[i % 7] + (' a%d' % i if names else '') for i in range(n))
def av(n): return ','.join('a%d' % i for i in range(n))
for n in range(N):
    o.append('  long ext_f%d(%s); void ext_v%d(%s);' % (n, ps(n), n, ps(n)))
o.append('}\nstruct O {\n  int x;')
for n in range(N):
    o.append('  long m%d(%s); void mv%d(%s); long c%d(%s) const; void cv%d(%s) const; long ne%d(%s) NE; long cn%d(%s) const NE; static long st%d(%s);' % ((n, ps(n)) * 7))
o.append('};\nstruct OD: public O {int y;};\nextern "C" {')
for n in range(N):
    if n == NV: o.append('#if UNROLLED')
    o.append('  void ccv_apply%d(long& r, Args& a) {apply(&r,ext_f%d,a);}' % (n, n))
    o.append('  void ccv_applyv%d(Args& a) {apply(static_cast<void*>(0),ext_v%d,a);}' % (n, n))
    for m, const in (('m', 0), ('mv', 0), ('c', 0), ('c', 1), ('cv', 1), ('ne', 0), ('cn', 1), ('m', 1), ('mv', 1)):
        r = 'void' if m in ('mv', 'cv') else 'long'
        o.append('  %s ccv_bind_%s%s%d(%sO& o%s%s) {%sbindMethod(o,&O::%s%d)(%s);}' % (r, m, '_const' if const else '', n, 'const ' if const else '', ', ' if n else '', ps(n), '' if r == 'void' else 'return ', m, n, av(n)))
    o.append('  long ccv_derived%d(OD& o%s%s) {return bindMethod(o,&OD::m%d)(%s);}' % (n, ', ' if n else '', ps(n), n, av(n)))
    o.append('  long ccv_rebind%d(O& o, O& p%s%s) {bound_method<O,long (O::*)(%s)> b(o,&O::m%d); b.rebind(p); return b(%s);}' % (n, ', ' if n else '', ps(n), ps(n, False), n, av(n)))
    o.append('  void ccv_rebindv%d(O& o, O& p%s%s) {bound_method<O,void (O::*)(%s)> b(o,&O::mv%d), c(b); b.rebind(p); b(%s); c(%s);}' % (n, ', ' if n else '', ps(n), ps(n, False), n, av(n), av(n)))
    o.append('  void ccv_applybound%d(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m%d),a);}' % (n, n))
    o.append('  void ccv_applyboundv%d(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv%d),a);}' % (n, n))
    o.append('  long ccv_call%d(B& b) {return callOnBuffer(b,ext_f%d);}' % (n, n))
    o.append('  void ccv_callv%d(B& b) {callOnBuffer(b,ext_v%d);}' % (n, n))
    o.append('  long ccv_callbound%d(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c%d));}' % (n, n))
    o.append('  long ccv_pfcall%d(PackFunctor<B>& b) {return b.call(ext_f%d);}' % (n, n))
o.append('#endif')
def sig(n, k): return {'fn': 'long (*)(%s)', 'm': 'long (O::*)(%s)', 'c': 'long (O::*)(%s) const', 'ne': 'long (O::*)(%s) NE', 'cn': 'long (O::*)(%s) const NE', 'fne': 'void (*)(%s) NE'}[k] % ps(n, False)
o.append('}\ntemplate <class T> struct NotS {static const bool value=!is_same<T,S>::value;};\ntemplate <class T> struct Any1 {static const bool value=true;};\nextern "C" {')
for n in range(N):
    if n == NV: o.append('#if UNROLLED')
    c = []
    for k in ('fn', 'm', 'c', 'ne', 'cn', 'fne'):
        f = sig(n, k)
        mem, const = k not in ('fn', 'fne'), k in ('c', 'cn')
        c += ['Arity<%s >::value==%d' % (f, n), 'Arity<%s >::V==%d' % (f, n), '(is_same<Return<%s >::T,%s>::value)' % (f, 'void' if k == 'fne' else 'long'), '(is_same<Return<%s >::type,%s>::value)' % (f, 'void' if k == 'fne' else 'long')]
        c += ['(is_same<functional::Arg<%s,%d>::T,%s>::value)' % (f, i + 1, T[i % 7]) for i in range(n)]
        c += ['is_member_function_ptr<%s >::value==%d' % (f, mem), 'is_nonmember_function_ptr<%s >::value==%d' % (f, not mem), 'functional::is_function<%s >::value' % f, 'is_const_method<%s >::value==%d' % (f, const)]
        c += ['(AllArgs<%s,NotS>::value)==%d' % (f, n < 7), '(AllArgs<%s,Any1>::value)' % f]
        if mem: c += ['(is_same<ClassOf<%s >::T,O>::value)' % f, '(is_same<ClassOf<%s >::type,O>::value)' % f, 'Arity<bound_method<O,%s > >::value==%d' % (f, n), '(is_same<Return<bound_method<O,%s > >::T,long>::value)' % f, '(bound_method<O,%s >::is_const)==%d' % (f, const)]
    o.append('  bool ccv_traits%d() {\n    bool r=true;\n%s    return r;\n  }' % (n, ''.join('    r=r && (%s);\n' % x for x in c)))
o.append('#endif\n#if !UNROLLED')
W = {'int': 'short', 'long': 'int', 'double': 'int', 'short': 'unsigned char', 'unsigned char': 'short', 'S': 'S', 'const S&': 'S'}      # arguments of other types than the parameters
for n in range(1, NV):
    o.append('  void ccv_pack%d(PackFunctor<B>& b, %s) {b.pack<long(%s)>(%s);}' % (n, ps(n), ps(n, False), av(n)))
    o.append('  void ccv_packw%d(PackFunctor<B>& b, %s) {b.pack<long(%s)>(%s);}' % (n, ', '.join('%s a%d' % (W[T[i % 7]], i) for i in range(n)), ps(n, False), av(n)))
    o.append('  void ccv_packp%d(PackFunctor<B>& b, %s) {b.pack<long(*)(%s)>(%s);}' % (n, ps(n), ps(n, False), av(n)))
    o.append('  void ccv_packauto%d(PackFunctor<B>& b, %s) {b.pack(%s);}' % (n, ps(n), av(n)))
o.append('#endif\n}')
open('/verif/tu/functional.cc', 'w').write('\n'.join(o) + '\n')
