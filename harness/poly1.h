// C07 fixtures: smart pointer members, and a polymorphic hierarchy built from Poly, PolyPack and PolyXML
#ifndef POLY1_H
#define POLY1_H
#include "polyBase.h"
#include "polyPackBase.h"
#include "polyXMLBase.h"
#include "factory.h"
#include <vector>
#include <map>
#include <string>
#include <typeinfo>
#include <memory>
namespace py
{
  using classdesc::string;
  using classdesc::shared_ptr;
  extern long live;
  struct Live {Live() {live++;} Live(const Live&) {live++;} ~Live() {live--;}};
  struct Plain
  {
    int a; string b; std::vector<int> c;
    CLASSDESC_ACCESS(Plain);
    Live l;
  public:
    Plain(): a(0) {}
    bool operator==(const Plain& x) const {return a==x.a && b==x.b && c==x.c;}
  };
  struct Base: public classdesc::PolyBase<string>, virtual public classdesc::PolyPackBase, virtual public classdesc::PolyXMLBase
  {
    static Base* create(const string&);
    virtual bool same(const Base&) const=0;
    virtual void genr(int depth)=0;
    virtual string kind() const=0;
  };
  template <class T> struct Obj: public classdesc::Poly<T,Base>, public classdesc::PolyPack<T>, public classdesc::PolyXML<T>
  {
    string type() const {return classdesc::typeName<T>();}
    bool same(const Base& x) const {const T* t=dynamic_cast<const T*>(&x); return t && typeid(x)==typeid(*this) && static_cast<const T&>(*this)==*t;}
    string kind() const {return typeid(T).name();}
    void genr(int depth) {fill(static_cast<T&>(*this),depth);}
  };
  struct Circle_b {double r; string name; Circle_b(): r(-1) {} bool operator==(const Circle_b& x) const {return r==x.r && name==x.name;}};
  struct Circle: public Circle_b, public Obj<Circle> {};
  struct Disc_b: public Circle_b {int fill; std::vector<string> labels; Disc_b(): fill(5) {} bool operator==(const Disc_b& x) const {return Circle_b::operator==(x) && fill==x.fill && labels==x.labels;}};
  struct Disc: public Disc_b, public Obj<Disc> {};
  struct Empty_b {int none; Empty_b(): none(0) {} bool operator==(const Empty_b& x) const {return true;}};
  struct Empty: public Empty_b, public Obj<Empty> {};
  bool eq(const shared_ptr<Base>&, const shared_ptr<Base>&);
  struct Group_b
  {
    int before; shared_ptr<Base> a; std::vector<shared_ptr<Base> > v; std::map<string,shared_ptr<Base> > m; int after;
    Group_b(): before(1), after(2) {}
    bool operator==(const Group_b& x) const;
  };
  struct Group: public Group_b, public Obj<Group> {};
  struct Unregistered: public Circle_b, public Obj<Unregistered> {};
  struct Holder
  {
    int before; shared_ptr<Plain> p; shared_ptr<int> q; shared_ptr<string> s; shared_ptr<std::vector<Plain> > pv; std::vector<shared_ptr<Plain> > v; std::map<int,shared_ptr<Plain> > m; shared_ptr<Base> poly; shared_ptr<shared_ptr<Plain> > pp; int after;
    Holder(): before(0), after(0) {}
  };
  struct Uniq
  {
    int before; std::unique_ptr<Plain> p; std::unique_ptr<string> s; std::unique_ptr<Base> poly; std::unique_ptr<int> q; int after;
    Uniq(): before(0), after(0) {}
  };
  struct Weak {int before; std::weak_ptr<Plain> w; int after; Weak(): before(0), after(0) {}};
}
#endif
