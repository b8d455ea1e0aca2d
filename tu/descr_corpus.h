// class definitions whose generated descriptors are put under contract; each line shape is one the class processor has to get right
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <memory>
enum {ROWS=3, COLS=2};
typedef int Int;
struct Leaf {int v;};
struct Plain
{
  int a;
  double b;
  char c; bool d;
  unsigned long long e;
  const char* f;
  Leaf g;
  std::string h;
};
struct Lists
{
  int a, b;
  double *p, q, **r;
  int x=1, y=2;
  Leaf l1, l2;
  char tail;
};
struct Arrays
{
  int a[4];
  double b[ROWS][COLS];
  Leaf c[2];
  char d[ROWS*2+1];
  unsigned e[2][3][4];
  const char* f[5];
  short g [ 7 ] ;
  int after;
};
struct Templates
{
  std::vector<int> a;
  std::map<std::string,std::vector<int> > b;
  std::vector<std::vector<int>> c;
  std::vector<std::pair<int,double>> d, e;
  std::map<int,std::vector<std::pair<int,char>>> f;
  std::vector<std::vector<std::vector<int>>> g;
  std::pair<std::vector<std::pair<int,int>>,int> h;
  std::pair<std::vector<std::vector<int>>, std::map<int,int>> i;
  std::function<int(int,double)> j;
  std::vector<int> k[3];
  int after;
};
struct Initialised
{
  int a=3;
  double b=2.5;
  std::string c="x;y}";
  int d{7};
  std::vector<int> e{1,2,3};
  int f=(1+2)*3;
  char g=';', h='\'', i='{';
  const char* j="\"; int bogus; \"";
  int k[3]={1,2,3};
  bool l=true;
  std::string m{"},{"};
  int after;
};
struct Qualified
{
  const int a;
  mutable int b;
  volatile int c;
  const double d;
  ::Leaf e;
  std::string f;
  unsigned int g;
  long int h;
  Qualified(): a(0), d(0) {}
};
struct Pointers
{
  int* a;
  int *b;
  int const* c;
  const int* const d;
  int** e;
  void (*f)(int,double);
  int (*g)();
  int Leaf::*h;
  std::shared_ptr<Leaf> i;
  int after;
  Pointers(): d(0) {}
};
struct References
{
  int& a;
  Leaf& b;
  const double& c;
  int after;
  References(int& i, Leaf& l, double& d): a(i), b(l), c(d) {}
};
struct Statics
{
  static int a;
  static const int b=3;
  static const char c='x';
  int d;
  static double e;
  static Leaf f;
  int after;
};
struct StaticsAfterConst
{
  const int a;
  static int b;
  std::vector<const int*> c;
  static int d;
  static const int e=4;
  static int f;
  int after;
  StaticsAfterConst(): a(1) {}
};
struct Methods
{
  int a;
  void f();
  int g(int x, double y=3.5, const std::string& z="a,b") const;
  static int h(int);
  virtual void v(int);
  virtual ~Methods();
  Methods();
  Methods(const Methods&);
  Methods& operator=(const Methods&);
  bool operator==(const Methods&) const;
  int operator()(int);
  int operator[](int) const;
  operator int() const;
  int inl() {int local=1; if (local) {return local;} return 0;}
  int inlc() const {struct Local {int x;}; return 3;}
  void over(int);
  void over(double);
  template <class T> void templ(const T&);
  void gone()=delete;
  std::vector<int> ret(const std::map<int,int>& m);
  int* ptr();
  int& refm();
  int b;
  friend bool operator<(const Methods&, const Methods&);
  friend class Arrays;
  int c;
};
class Private
{
  int a;
  void pf();
  struct Hidden {int h;};
public:
  int b;
  void pub();
protected:
  int c;
private:
  double d;
public:
  Leaf e;
};
class Base1 {public: int a;};
class Base2 {public: double a; virtual void f2();};
struct Base3 {char a[3];};
template <class T> struct TBase {T t;};
template <class A, class B> struct TBase2 {A a1; B b1;};
struct Derived1: Base1 {int a;};
struct Derived2: public Base1, public Base3 {int b;};
struct Derived3: public Base2, private Base1, protected Base3 {int b;};
class Derived4: Base1, public Base3 {public: int b;};
struct Derived5: public TBase<int>, public TBase2<int,std::vector<int>> {int b;};
struct Derived6: public TBase<std::map<int,TBase<double> > >, public std::vector<int> {int b;};
struct Derived7: public Derived2, public Base2 {int b; virtual void f2();};
struct Empty {};
struct OnlyBase: public Base1 {};
template <class T> struct Temp
{
  T a;
  std::vector<T> b;
  T* c;
  T d[3];
  void f(const T&);
  int e;
};
template <class T, int N=3> struct TempArr
{
  T a[N];
  int b[N][2*N];
  TBase<T> c;
};
template <class T> struct TempDerived: public TBase<T>, public Temp<std::vector<T> >
{
  T own;
};
template <> struct Temp<char> {int special; char other;};
template <class T> struct Temp<T*> {T* part; int n;};
struct Outer
{
  struct Inner {int a; struct Deep {double x; int y[2];} ; Deep d;};
  class Inner2 {public: int z; Inner i;};
  enum E {e1, e2=5, e3};
  typedef std::vector<Inner> V;
  typedef struct {int t1; double t2;} Anon;
  Inner a;
  Inner2 b;
  E c;
  V d;
  Anon e;
  Inner::Deep f;
  int after;
};
namespace ns1
{
  struct A {int x; Leaf l;};
  namespace ns2
  {
    struct B {A a; int y; struct C {ns1::A q; int w;} ;  C c;};
    template <class T> struct D {T t; A a;};
  }
  struct A2: public A, public ns2::B {int z;};
}
namespace ns1 { struct A3 {ns2::D<int> d; A a; int b;}; }
typedef struct {int x; double y[2]; Leaf l;} TypedefAnon;
typedef struct Tagged {int x; int y;} TaggedT;
struct Unions
{
  int a;
  union {int i; double d;} u;
  int b;
  enum {q1,q2} anon;
  int after;
};
struct Commented
{
  int a; // int notamember;
  /* int nope; */ int b;
  int /* x */ c /* y */ ;  // }
  char d; /* };
  struct Fake {int f;}; */
  int e; // "unterminated
  int f; /* it's */ int g;
  //}
  int h;
};
struct Keywords
{
  inline int fi() const {return 1;}
  explicit Keywords(int x=0);
  int operator+(int) const;
  bool operator<(const Keywords& x) const {return a<x.a;}
  bool operator>>(int);
  Keywords& operator+=(int);
  int operator->*(int);
  void noex() noexcept;
  auto trail(int x) -> int;
  int fp(int (*callback)(int), void (*)(double));
  using Name=int;
  using Vec=std::vector<Leaf>;
  typedef double Real;
  typedef int (*Fn)(int);
  int a;
  Name b;
  Vec c;
  Real d;
  Fn e;
  alignas(16) int f;
  [[maybe_unused]] int g;
  int h;
  unsigned u; long long ll;
  int after;
};
struct TypeMembers
{
  signed char a; unsigned char b; signed short c; long double d; wchar_t e; float f;
  std::size_t g; Int h; std::vector<Int>::size_type i; std::map<int,Leaf>::iterator j;
  enum Outer::E l;
  std::pair<int,int> m; bool n;
};

struct Modern
{
  std::vector<int> a={1,2,3}, b{4,5};
  int c[3]={1,2,3}, d[2]{1,2};
  std::map<int,std::string> e{{1,"a,b"},{2,"}"}};
  std::function<int(int,int)> f=[](int x, int y) {return x+y;};
  int g=std::max(1,2), h=sizeof(int), i{int{3}};
  Modern(): g(2), h{3}, i{(4)} {}
  int after;
  explicit Modern(int x) noexcept: a(std::vector<int>(3,x)), g{x} {if (x) {int y=x; (void)y;}}
  int last;
  void meth() {}
};
struct Befriending
{
  int a;
  friend bool operator==(const Befriending& x, const Befriending& y) {return x.a==y.a;}
  int b;
  friend class Leaf;
  int c;
  friend std::vector<int> befriended(const Befriending& x) {std::vector<int> r; if (x.a) {r.push_back(x.b);} return r;}
  std::vector<int> d;
  template <class T> friend class Befriended;
  void meth1() {}
  template <class T> struct Member {T t; int u; void f();};
  void meth2() {}
  template <class T> using Alias=std::vector<T>;
  void meth3() {}
  template <class T> void meth4() {}
  void meth5() const {}
};
class Derived8: public Base1, Base3, public Base2 {public: int b;};
struct Derived9: private Base1, Base3, protected Base2 {int b;};
struct MultiMeth
{
  int a;
  void over(int);
  void over(double)=delete;
  void other(int)=delete;
  virtual void v1(int);
  virtual void v1(double);
  static void s1(int);
  static void s1(char);
  void single(double);
  int b;
};
