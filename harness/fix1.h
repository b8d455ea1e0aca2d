// classes run through the real classdesc processor; equality is handwritten and independent of it
#ifndef FIX1_H
#define FIX1_H
#include <string>
#include <string.h>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <deque>
namespace fix
{
  using std::string;
  enum Colour {red, green=5, blue=-3, violet=0x7ffffff0};
  struct Empty {};
  struct Base {
    int b1; double b2;
    Base(): b1(0), b2(0) {}
    bool eqb(const Base& x) const {return b1==x.b1 && b2==x.b2;}
  };
  struct Base2 {
    string s;
    bool eq2(const Base2& x) const {return s==x.s;}
  };
  class Priv {
    int hidden;
    string label;
  protected:
    short prot[3];
  public:
    char pub;
    Priv(): hidden(0), pub(0) {prot[0]=prot[1]=prot[2]=0;}
    void set(int h, const string& l, short a, short b, short c, char p) {hidden=h; label=l; prot[0]=a; prot[1]=b; prot[2]=c; pub=p;}
    bool operator==(const Priv& x) const {return hidden==x.hidden && label==x.label && prot[0]==x.prot[0] && prot[1]==x.prot[1] && prot[2]==x.prot[2] && pub==x.pub;}
    CLASSDESC_ACCESS(Priv);
  };
  struct Mixed: public Base, public Base2 {
    bool flag; char c; signed char sc; unsigned char uc;
    short s1; unsigned short us; int i, j; unsigned u; long l; unsigned long ul; float f; double d;
    Colour col;
    struct Inner {int a; string b; Colour c; Inner(): a(0), c(red) {} bool operator==(const Inner& x) const {return a==x.a && b==x.b && c==x.c;}} inner;
    int arr[4]; int arr2[2][3]; double arr3[2][2][2]; char text[8]; string strs[3]; Inner inners[2]; Colour cols[2]; char text2[3][4];
    Priv priv;
    std::vector<int> vi; std::vector<string> vs;
    std::list<Inner> li; std::map<string,int> m; std::multimap<int,string> mm; std::set<int> si; std::multiset<string> ms; std::deque<double> dq;
    std::map<int,std::vector<std::map<string,Inner> > > nest;
    std::vector<std::vector<int> > vv; std::pair<int,string> pr;
    Empty e;
    classdesc::Exclude<int> ex;
    static const int konst=3;
    int method(int x) {return x+i;}
    static int smethod(int x) {return x;}
    int last;
    Mixed(): flag(false), c(0), sc(0), uc(0), s1(0), us(0), i(0), j(0), u(0), l(0), ul(0), f(0), d(0), col(red), last(0) {
      for (int k=0; k<4; ++k) arr[k]=0;
      for (int k=0; k<6; ++k) arr2[k/3][k%3]=0;
      for (int k=0; k<8; ++k) {arr3[k/4][k/2%2][k%2]=0; text[k]=0;}
      for (int k=0; k<12; ++k) text2[k/4][k%4]=0;
      cols[0]=cols[1]=red; ex=0;
    }
    bool operator==(const Mixed& x) const {
      bool r=eqb(x) && eq2(x) && flag==x.flag && c==x.c && sc==x.sc && uc==x.uc && s1==x.s1 && us==x.us && i==x.i && j==x.j && u==x.u && l==x.l && ul==x.ul && f==x.f && d==x.d && col==x.col && inner==x.inner;
      for (int k=0; k<4; ++k) r=r && arr[k]==x.arr[k];
      for (int k=0; k<6; ++k) r=r && arr2[k/3][k%3]==x.arr2[k/3][k%3];
      for (int k=0; k<8; ++k) r=r && arr3[k/4][k/2%2][k%2]==x.arr3[k/4][k/2%2][k%2] && text[k]==x.text[k];
      for (int k=0; k<12; ++k) r=r && text2[k/4][k%4]==x.text2[k/4][k%4];
      for (int k=0; k<3; ++k) r=r && strs[k]==x.strs[k];
      for (int k=0; k<2; ++k) r=r && inners[k]==x.inners[k] && cols[k]==x.cols[k];
      return r && priv==x.priv && vi==x.vi && vs==x.vs && li==x.li && m==x.m && mm==x.mm && si==x.si && ms==x.ms && dq==x.dq && nest==x.nest && vv==x.vv && pr==x.pr && last==x.last;
    }
  };
  struct Arrays {
    int a4[2][1][3][2]; short a5[2][2][1][2][2]; int a6[1][2][2][1][2][2]; char c3[2][2][3]; char c5[2][1][2][2][2]; string s2[2][2]; std::vector<int> v3[1][2][2]; int tail;
    Arrays() {memset(a4,0,sizeof(a4)); memset(a5,0,sizeof(a5)); memset(a6,0,sizeof(a6)); memset(c3,0,sizeof(c3)); memset(c5,0,sizeof(c5)); tail=0;}
    bool operator==(const Arrays& x) const {
      bool r=memcmp(a4,x.a4,sizeof(a4))==0 && memcmp(a5,x.a5,sizeof(a5))==0 && memcmp(a6,x.a6,sizeof(a6))==0 && memcmp(c3,x.c3,sizeof(c3))==0 && memcmp(c5,x.c5,sizeof(c5))==0 && tail==x.tail;
      for (int k=0; k<4; ++k) r=r && s2[k/2][k%2]==x.s2[k/2][k%2] && v3[0][k/2][k%2]==x.v3[0][k/2][k%2];
      return r;
    }
  };
  template <class T> struct Tmpl {T t; std::vector<T> v; int n; Tmpl(): t(), n(0) {} bool operator==(const Tmpl& x) const {return t==x.t && v==x.v && n==x.n;}};
  struct DerivedT: public Tmpl<string> {Tmpl<int> q; float z; DerivedT(): z(0) {} bool operator==(const DerivedT& x) const {return Tmpl<string>::operator==(x) && q==x.q && z==x.z;}};
  struct Level3: public DerivedT {int own; Level3(): own(0) {} bool operator==(const Level3& x) const {return DerivedT::operator==(x) && own==x.own;}};
}
#endif
