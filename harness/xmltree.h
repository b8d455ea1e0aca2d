// the element tree a fixture object is specified to be written as: one element per member, in declaration order, members of
// base classes first and at the same level, container and array elements named by their type, pairs as first/second
#ifndef XMLTREE_H
#define XMLTREE_H
#include <iomanip>
namespace xt {
  using xr::Node; using std::string;
  template <class T> string txt(const T& x) {std::ostringstream o; o<<std::setprecision(17)<<x; return o.str();}
  inline void tree(Node& n, const string& x) {n.text=x;}
#define TN(T) inline void tree(Node& n, T x) {n.text=txt(x);}
  TN(short) TN(unsigned short) TN(int) TN(unsigned) TN(long) TN(unsigned long) TN(long long) TN(unsigned long long) TN(float) TN(double)
  inline void tree(Node& n, bool x) {n.text= x? "true": "false";}
  inline void tree(Node& n, char x) {n.text=string(1,x);}
  inline void tree(Node& n, signed char x) {n.text=string(1,(char)x);}
  inline void tree(Node& n, unsigned char x) {n.text=string(1,(char)x);}
  inline void tree(Node& n, fix::Colour c) {n.text= c==fix::red? "red": c==fix::green? "green": c==fix::blue? "blue": "violet";}
  // element names
  template <class T> struct Nm;
#define NM(T,s) template <> struct Nm<T > {static string n() {return s;}};
  NM(bool,"bool") NM(char,"char") NM(signed char,"char") NM(unsigned char,"char") NM(short,"short") NM(unsigned short,"short") NM(int,"int") NM(unsigned,"int") NM(long,"long") NM(unsigned long,"long") NM(float,"float") NM(double,"double") NM(string,"string")
  NM(long long,"long") NM(unsigned long long,"long")
  NM(fix::Colour,"Colour") NM(fix::Mixed::Inner,"Inner") NM(fix::Mixed,"Mixed") NM(fix::Priv,"Priv")
  template <class T> struct Nm<std::vector<T> > {static string n() {return "vector";}};
  template <class T> struct Nm<std::list<T> > {static string n() {return "list";}};
  template <class T> struct Nm<std::set<T> > {static string n() {return "set";}};
  template <class K, class T> struct Nm<std::map<K,T> > {static string n() {return "map";}};
  template <class K, class T> struct Nm<std::pair<K,T> > {static string n() {return "pair";}};
  template <class T> struct Nm<fix::Tmpl<T> > {static string n() {return "Tmpl";}};
  template <class T> void tree(Node& n, const std::vector<T>& x);
  template <class T> void tree(Node& n, const std::list<T>& x);
  template <class T> void tree(Node& n, const std::deque<T>& x);
  template <class T> void tree(Node& n, const std::set<T>& x);
  template <class T> void tree(Node& n, const std::multiset<T>& x);
  template <class K, class T> void tree(Node& n, const std::map<K,T>& x);
  template <class K, class T> void tree(Node& n, const std::multimap<K,T>& x);
  template <class T> void tree(Node& n, const fix::Tmpl<T>& x);
  inline void tree(Node& n, const fix::Mixed::Inner& x);
  inline void tree(Node& n, const fix::Priv& x);
  inline void tree(Node& n, const fix::Mixed& x);
  template <class K, class T> void tree(Node& n, const std::pair<K,T>& x) {n.text="\1none\1"; tree(n.add("first"),x.first); tree(n.add("second"),x.second);}
  template <class C> void elems(Node& n, const C& x) {
    n.text="\1none\1"; for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) tree(n.add(Nm<typename C::value_type>::n()),*i);
  }
  template <class T> void arr(Node& n, const T* p, size_t c) {n.text="\1none\1"; for (size_t i=0; i<c; ++i) tree(n.add(Nm<T>::n()),p[i]);}
  template <class T> void tree(Node& n, const std::vector<T>& x) {elems(n,x);}
  template <class T> void tree(Node& n, const std::list<T>& x) {elems(n,x);}
  template <class T> void tree(Node& n, const std::deque<T>& x) {elems(n,x);}
  template <class T> void tree(Node& n, const std::set<T>& x) {elems(n,x);}
  template <class T> void tree(Node& n, const std::multiset<T>& x) {elems(n,x);}
  template <class K, class T> void tree(Node& n, const std::map<K,T>& x) {elems(n,x);}
  template <class K, class T> void tree(Node& n, const std::multimap<K,T>& x) {elems(n,x);}
#define M(x,m) tree(n.add(#m),x.m)
  template <class T> void tree(Node& n, const fix::Tmpl<T>& x) {n.text="\1none\1"; M(x,t); M(x,v); M(x,n);}
  inline void tree(Node& n, const fix::DerivedT& x) {tree(n,static_cast<const fix::Tmpl<string>&>(x)); M(x,q); M(x,z);}
  inline void tree(Node& n, const fix::Level3& x) {tree(n,static_cast<const fix::DerivedT&>(x)); M(x,own);}
  inline void tree(Node& n, const fix::Mixed::Inner& x) {n.text="\1none\1"; M(x,a); M(x,b); M(x,c);}
  struct PrivPeek {int hidden; string label; short prot[3]; char pub;};     // same members; only used to read private data of the fixture
  inline void tree(Node& n, const fix::Priv& q) {const PrivPeek& x=(const PrivPeek&)q; n.text="\1none\1"; M(x,hidden); M(x,label); arr(n.add("prot"),x.prot,3); M(x,pub);}
  inline void tree(Node& n, const fix::Mixed& x) {
    n.text="\1none\1";
    M(x,b1); M(x,b2); M(x,s); M(x,flag); M(x,c); M(x,sc); M(x,uc); M(x,s1); M(x,us); M(x,i); M(x,j); M(x,u); M(x,l); M(x,ul); M(x,f); M(x,d); M(x,col); M(x,inner);
    arr(n.add("arr"),x.arr,4); arr(n.add("arr2"),&x.arr2[0][0],6); arr(n.add("arr3"),&x.arr3[0][0][0],8); arr(n.add("text"),x.text,8); arr(n.add("strs"),x.strs,3);
    arr(n.add("inners"),x.inners,2); arr(n.add("cols"),x.cols,2); arr(n.add("text2"),&x.text2[0][0],12);
    M(x,priv); M(x,vi); M(x,vs); M(x,li); M(x,m); M(x,mm); M(x,si); M(x,ms); M(x,dq); M(x,nest); M(x,vv); M(x,pr); n.add("e","\1none\1"); M(x,last);
  }
  inline void tree(Node& n, const fix::Arrays& x) {
    n.text="\1none\1";
    arr(n.add("a4"),&x.a4[0][0][0][0],12); arr(n.add("a5"),&x.a5[0][0][0][0][0],16); arr(n.add("a6"),&x.a6[0][0][0][0][0][0],16);
    arr(n.add("c3"),&x.c3[0][0][0],12); arr(n.add("c5"),&x.c5[0][0][0][0][0],16); arr(n.add("s2"),&x.s2[0][0],4); arr(n.add("v3"),&x.v3[0][0][0],4); M(x,tail);
  }
}
#endif
