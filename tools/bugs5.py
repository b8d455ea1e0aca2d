HF = '#include <stdexcept>\n#include <string>\n#include <functional>\n#include "function.h"\n#include "pack_base.h"\n#include "classdesc_epilogue.h"\nusing namespace classdesc; using namespace classdesc::functional;\n'
B('c15-unrolled-order', 'C15', [('functiondb7.h', '''apply_void_fn(F f, Args& a, Fdummy<F> dum=0)
{
  f(a[0],a[1],a[2],a[3],a[4],a[5],a[6]);''', '''apply_void_fn(F f, Args& a, Fdummy<F> dum=0)
{
  f(a[0],a[1],a[2],a[3],a[5],a[4],a[6]);''')], HF + '''int r;
void f(int a, int b, int c, int d, int e, int g, int h) {r=a+10*b+100*c+1000*d+10000*e+100000*g+1000000*h;}
struct A {int operator[](size_t i) const {return i+1;}};
int main() {A a; apply(static_cast<void*>(0),f,a); return r==7654321? 0: 1;}''', std='c++98', needs='a void function of seven arguments, C++98 or USE_UNROLLED', breaks='two arguments are exchanged')
B('c15-pack-uncast', 'C15', [('function.h', "        (*this) << typename Arg<F,N>::T(a);", "        (*this) << a;")], HF + '''long got;
void f(long a, long b) {got=a*100+b;}
int main() {PackFunctor<pack_t> p; p.pack<decltype(f)>(3L,4); try {p.call(f);} catch (std::exception&) {return 1;} return got==304? 0: 1;}''', std='c++11', needs='an argument whose type differs from the parameter type', breaks='packed arguments do not have the types of the signature, so the call reads other values or runs out of data')
B('c15-rebind-void', 'C15', [('function.h', '''      void operator()(Args... args) const {(obj->*method)(args...);}
      void rebind(C& newObj) {obj=&newObj;}''', '''      void operator()(Args... args) const {(obj->*method)(args...);}
      void rebind(C& newObj) {C* p=&newObj; if (!obj) obj=p;}''')], HF + '''struct O {int x; void set(int i) {x=i;}};
int main() {O a={0}, b={0}; auto m=bindMethod(a,&O::set); m.rebind(b); m(5); return a.x==0 && b.x==5? 0: 1;}''', std='c++11', needs='rebinding a bound method that returns nothing', breaks='the method is called on the object bound before')
B('c15-curry-arity', 'C15', [('function.h', '''      typedef typename Arg<F,I+1>::T T;
      typedef T type;
    };

    template <class F, class R, class A>
    struct Return<CurryFirst''', '''      typedef typename Arg<F,I+(I>2? 0: 1)>::T T;
      typedef T type;
    };

    template <class F, class R, class A>
    struct Return<CurryFirst''')], HF + '''long got;
void f(short a, short b, short c, long d) {got=a+b*10+c*100+d*1000;}
int main() {PackFunctor<pack_t> p; p.pack<decltype(f)>(short(1),short(2),short(3),40000L); try {p.call(f);} catch (std::exception&) {return 1;} return got==40000321 && p.pos()==p.size()? 0: 1;}''', std='c++11', needs='at least four arguments of different types', breaks='the type of a later argument is taken from the one before it')
