// C16: random_init against an independent account of what is drawn and where it goes
// FLAGS: -std=c++11
// CD: rand_types.cd rand_types.h -nodef -typeName random_init
#include "h.h"
#include "classdesc_access.h"
#include "random_init_base.h"
#include "rand_types.h"
int Whole::stat=0; const int Whole::sk;
namespace classdesc {template <> void random_init_normalise(Leaf& a) {a.normalised=true;}}
#include "rand_types.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using std::string;
// a class with no default constructor
struct NoDef {int x; double y; explicit NoDef(int v): x(v), y(v) {}};
namespace classdesc_access {template <> struct access_random_init<NoDef> {void operator()(random_init_t& r,const classdesc::string& d,NoDef& a) {::random_init(r,d+".x",a.x); ::random_init(r,d+".y",a.y);}};}
static int crand=-1;
extern "C" int rand() throw() {return crand>=0? crand: int(h::rnd()&0x7fffffff);}

static const double LAST=1-1.0/(1LL<<53);
static std::vector<double> draws;
static double draw()
{
  switch (h::rnd(9)) {case 0: return 0; case 1: return LAST; case 2: return .5; case 3: return .5-1.0/(1LL<<54); default: return double(h::rnd()>>11)/(1LL<<53);}
}
struct Recorder: public random_init_t {double rand() {draws.push_back(draw()); return draws.back();}};
static size_t pos;
static double next() {if (pos>=draws.size()) {h::fail("too-few-draws","at "+h::str(pos)); return 0;} return draws[pos++];}
static int count() {return int(10*next());}

// what a value becomes, for the draws in order
template <class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T,bool>::value && !std::is_same<T,char>::value && !std::is_same<T,wchar_t>::value,void>::type want(T& a) {a=T(double(std::numeric_limits<T>::max())*next());}
template <class T> typename enable_if<is_floating_point<T>,void>::T want(T& a) {std::stringstream s; s<<T(std::numeric_limits<T>::max()*next()); s>>a;}
static void want(bool& a) {a=!(next()<.5);}
static void want(char& a) {a=char(32+int(95*next()));}
static void want(wchar_t& a) {a=wchar_t(32+int(95*next()));}
static void want(Plain& a) {static const Plain t[]={pa,pb,pc,pd}; a=t[int(4*next())];}
static void want(Alias& a) {int i=int(3*next()); static const Alias t[]={qa,qb,qc}; a=t[i];}
static void want(Scoped& a) {static const Scoped t[]={Scoped::sa,Scoped::sb,Scoped::sc}; a=t[int(3*next())];}
static void want(BaseA&); static void want(BaseB&); static void want(Leaf&); static void want(Whole&);
template <class T> void want(std::basic_string<T>& a) {a.assign(count(),T()); for (size_t i=0; i<a.size(); ++i) want(a[i]);}
template <class A, class B> void want(std::pair<A,B>& a); template <class T> void want(std::vector<T>& a); template <class T> void want(std::list<T>& a); template <class T> void want(std::deque<T>& a); template <class T> void want(std::set<T>&); template <class T> void want(std::multiset<T>&);
template <class K, class V> void want(std::map<K,V>&); template <class K, class V> void want(std::multimap<K,V>&); template <class T> void want(std::unordered_set<T>&); template <class K, class V> void want(std::unordered_map<K,V>&);
template <class T> void want(std::shared_ptr<T>& a) {a.reset(new T()); want(*a);}
template <class T> void want(std::unique_ptr<T>& a) {a.reset(new T()); want(*a);}
template <class C> void seq(C& a) {a.resize(count()); for (typename C::iterator i=a.begin(); i!=a.end(); ++i) want(*i);}
template <class V, class C> void ins(C& a) {for (int n=count(); n>0; --n) {V v; want(v); a.insert(v);}}
template <class A, class B> void want(std::pair<A,B>& a) {want(a.first); want(a.second);}
template <class T> void want(std::vector<T>& a) {seq(a);}
template <class T> void want(std::list<T>& a) {seq(a);}
template <class T> void want(std::deque<T>& a) {seq(a);}
template <class T> void want(std::set<T>& a) {ins<T>(a);}
template <class T> void want(std::multiset<T>& a) {ins<T>(a);}
template <class T> void want(std::unordered_set<T>& a) {ins<T>(a);}
template <class K, class V> void want(std::map<K,V>& a) {ins<std::pair<K,V> >(a);}
template <class K, class V> void want(std::multimap<K,V>& a) {ins<std::pair<K,V> >(a);}
template <class K, class V> void want(std::unordered_map<K,V>& a) {ins<std::pair<K,V> >(a);}
template <class T, size_t n> void want(std::array<T,n>& a) {next(); for (size_t i=0; i<n; ++i) want(a[i]);}
template <class T, size_t n> void want(T (&a)[n]) {for (size_t i=0; i<n; ++i) want(a[i]);}
static void want(Leaf& a) {want(a.i); want(a.d); want(a.s); want(a.b); want(a.c); want(a.normalised); a.normalised=true;}
static void want(BaseA& a) {want(a.uc); want(a.sc); want(a.sh); want(a.us);}
static void want(BaseB& a) {want(a.f); want(a.ld); want(a.w); want(a.ws);}
static int wantStat;
static void want(Whole& a)
{
  want((BaseA&)a); want((BaseB&)a); want(a.x); want(a.y); want(a.z); want(a.leaves); want(a.e); want(a.f); want(a.al); want(a.so);
  want(a.v); want(a.vs); want(a.ls); want(a.du); want(a.vv); want(a.ar); want(a.m); want(a.mm); want(a.st); want(a.ms); want(a.mv); want(a.mmi); want(a.us_); want(a.um);
  want(a.p); want(a.pp); want(a.vp); want(wantStat); want(a.sp); want(a.up); want(a.upi); want(a.vsp); want(a.ve); want(a.vso); want(a.ll); want(a.ull); want(a.u); want(a.ul);
  int p; want(p); a.setPriv(p); want(a.pv());
}
// members of the two, as text
template <class T> typename enable_if<Or<is_arithmetic<T>,is_enum<T> >,string>::T show(const T& a) {std::ostringstream o; o.precision(25); o<<(long double)(a); return o.str()+" ";}
template <class T> string show(const std::basic_string<T>& a) {string r="'"; for (size_t i=0; i<a.size(); ++i) r+=char(a[i]); return r+"' ";}
static string show(const Leaf& a) {return "{"+show(a.i)+show(a.d)+show(a.s)+show(a.b)+show(a.c)+show(a.normalised)+"}";}
template <class A, class B> string show(const std::pair<A,B>& a); template <class T, size_t n> string show(const T (&a)[n]);
template <class T> typename enable_if<is_container<T>,string>::T show(const T& a);
template <class P> string showp(const P& a) {return a? "->"+show(*a): string("null ");}
template <class T> string show(const std::shared_ptr<T>& a) {return showp(a);}
template <class T> string show(const std::unique_ptr<T>& a) {return showp(a);}
template <class T> typename enable_if<is_container<T>,string>::T show(const T& a) {string r="["+h::str(a.size())+": "; for (typename T::const_iterator i=a.begin(); i!=a.end(); ++i) r+=show(*i); return r+"]";}
template <class A, class B> string show(const std::pair<A,B>& a) {return "("+show(a.first)+","+show(a.second)+")";}
template <class T, size_t n> string show(const T (&a)[n]) {string r="["; for (size_t i=0; i<n; ++i) r+=show(a[i]); return r+"]";}
#define M(m) r.push_back(std::make_pair(string(#m),show(a.m)));
static std::vector<std::pair<string,string> > members(Whole& a, int st)
{
  std::vector<std::pair<string,string> > r;
  M(uc) M(sc) M(sh) M(us) M(f) M(ld) M(w) M(ws) M(x) M(y) M(z) M(leaves) M(e) r.push_back(std::make_pair(string("f"),show(a.Whole::f))); M(al) M(so) M(v) M(vs) M(ls) M(du) M(vv) M(ar) M(m) M(mm) M(st) M(ms) M(mv) M(mmi) M(us_) M(um) M(p) M(pp) M(vp) M(k) M(karr)
  M(sp) M(up) M(upi) M(vsp) M(ve) M(vso) M(ll) M(ull) M(u) M(ul) M(getPriv()) M(pv())
  r.push_back(std::make_pair(string("stat"),show(st)));
  return r;
}
template <class T> void one(const char* nm)
{
  draws.clear(); pos=0;
  T a=T(), b=T();
  Recorder r; ::random_init(r,"",a);
  want(b);
  h::eval(string(nm)+show(a));
  h::check(show(a)==show(b),string("value-of-")+nm,show(a)+" for "+show(b));
  h::check(pos==draws.size(),string("draws-of-")+nm,h::str(pos)+" of "+h::str(draws.size()));
}
#define ONE(...) one<__VA_ARGS__ >(#__VA_ARGS__)

int main()
{
  h::Main m;
  h::section("the default source");
  random_init_t d;
  for (int i=0; i<40; ++i)
    {
      crand= i<3? i: i<6? 0x7fffffff-(i-3): int(h::rnd()&0x7fffffff);
      double x=d.rand();
      h::eval("rand()=="+h::str(crand));
      h::check(x>=0 && x<1,"rand-range",h::str(crand)+" gives "+h::str(x));
    }
  crand=-1;
  for (int i=0; i<h::scale(60); ++i)
    {
      h::section("single values");
      ONE(int); ONE(unsigned); ONE(short); ONE(unsigned short); ONE(long); ONE(unsigned long); ONE(long long); ONE(unsigned long long); ONE(char); ONE(signed char); ONE(unsigned char); ONE(wchar_t); ONE(bool); ONE(float); ONE(double); ONE(long double);
      ONE(string); ONE(std::wstring); ONE(std::vector<int>); ONE(std::list<string>); ONE(std::deque<double>); ONE(std::set<int>); ONE(std::multiset<char>); ONE(std::map<int,string>); ONE(std::multimap<string,std::vector<int> >);
      ONE(std::pair<char,std::vector<float> >); ONE(std::shared_ptr<int>); ONE(std::unique_ptr<string>); ONE(Leaf); ONE(std::vector<Leaf>); ONE(std::map<Plain,Scoped>); ONE(std::vector<std::map<bool,Leaf> >);
      h::section("a class");
      draws.clear(); pos=0;
      int target=4; Leaf tl=Leaf(); tl.i=3;
      Whole a, b;
      a.ptr=b.ptr=&target; a.lptr=b.lptr=&tl; (int&)a.ex=17; Whole::stat=0; wantStat=0;
      // targets are not empty
      Recorder pre; std::vector<double> keep;
      if (h::rnd(2)) {::random_init(pre,"",a.vs); b.vs=a.vs; ::random_init(pre,"",a.m); b.m=a.m; ::random_init(pre,"",a.sp); std::shared_ptr<Leaf> other=a.sp; (void)other; a.v.resize(12,1); b.v=a.v;}
      draws.clear();
      Recorder r; ::random_init(r,"",a);
      want(b);
      std::vector<std::pair<string,string> > x=members(a,Whole::stat), y=members(b,wantStat);
      string all;
      for (size_t j=0; j<x.size(); ++j) all+=x[j].second;
      h::eval(all);
      for (size_t j=0; j<x.size(); ++j) h::check(x[j].second==y[j].second,"member-"+x[j].first,x[j].second+" for "+y[j].second);
      h::check(pos==draws.size(),"draws-of-class",h::str(pos)+" of "+h::str(draws.size()));
      h::check(a.ptr==&target && a.lptr==&tl && target==4 && tl.i==3,"pointer-touched","");
      h::check((int&)a.ex==17,"excluded-touched",h::str((int&)a.ex));
      // a shared target is replaced, not overwritten
      std::shared_ptr<Leaf> p(new Leaf()), q(p);
      p->i=-5;
      ::random_init(r,"",p);
      h::check(p!=q && q->i==-5 && q.use_count()==1,"shared-target","");
      // what a pointer to a class with no default constructor holds is initialised in place, and a null one stays null
      for (int null=0; null<2; ++null)
        {
          NoDef w(7), z(7);
          shared_ptr<NoDef> sp(null? nullptr: new NoDef(7)), keep(sp); std::unique_ptr<NoDef> up(null? nullptr: new NoDef(7)); NoDef* was=up.get();
          draws.clear(); pos=0; ::random_init(r,"",sp); ::random_init(r,"",up);
          if (!null) {want(w.x); want(w.y); want(z.x); want(z.y);}
          h::check(sp==keep && up.get()==was,"no-default-target",h::str(null));
          h::check(null || (sp->x==w.x && show(sp->y)==show(w.y) && up->x==z.x && show(up->y)==show(z.y)),"no-default-value",h::str(null));
          h::check(pos==draws.size(),"no-default-draws",h::str(pos)+" of "+h::str(draws.size()));
        }
    }
}
