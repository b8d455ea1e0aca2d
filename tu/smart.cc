// instantiates /repo/polyAccessPack.h, object.h, poly.h, polyBase.h, polyPackBase.h and factory.h for opaque classes
#include <new>
#include <memory>
#include "polyBase.h"
#include "polyPackBase.h"
#include "factory.h"
#include "poly.h"
struct Node {int v; Node(); ~Node(); Node& operator=(const Node&);};
namespace classdesc_access
{
  template <> struct access_pack<Node> {void operator()(classdesc::pack_t&, const classdesc::string&, const Node&);};
  template <> struct access_unpack<Node> {void operator()(classdesc::pack_t&, const classdesc::string&, Node&);};
}
// a hierarchy of which every member is a contract
struct PB: public classdesc::PolyPackBase
{
  typedef int Type;
  virtual int type() const; static PB* create(int);
  virtual void pack(classdesc::pack_t&, const classdesc::string&) const; virtual void unpack(classdesc::unpack_t&, const classdesc::string&); virtual ~PB();
};
// one class of a hierarchy of object.h
struct Ob: public classdesc::Object<Ob> {int v; Ob(); Ob(const Ob&); ~Ob();};
namespace classdesc_access
{
  template <> struct access_pack<Ob> {void operator()(classdesc::pack_t&, const classdesc::string&, const Ob&);};
  template <> struct access_unpack<Ob> {void operator()(classdesc::pack_t&, const classdesc::string&, Ob&);};
}
// factory
struct FB {virtual ~FB();};
struct F1: public FB {F1(); ~F1();};
namespace classdesc {template <> Factory<FB,int>::Factory();}
// class of a hierarchy of polyBase.h
struct MB: public classdesc::PolyBase<int> {};
struct M1: public classdesc::Poly<M1,MB> {int v; M1(); M1(const M1&); ~M1(); int type() const;};
namespace classdesc_access
{
  template <> struct access_pack<M1> {void operator()(classdesc::pack_t&, const classdesc::string&, const M1&);};
  template <> struct access_unpack<M1> {void operator()(classdesc::pack_t&, const classdesc::string&, M1&);};
}
// class of a hierarchy of polyPackBase.h
struct PP1: public classdesc::PolyPack<PP1> {int v; PP1(); ~PP1();};
namespace classdesc_access
{
  template <> struct access_pack<PP1> {void operator()(classdesc::pack_t&, const classdesc::string&, const PP1&);};
  template <> struct access_unpack<PP1> {void operator()(classdesc::pack_t&, const classdesc::string&, PP1&);};
}
// values of poly
struct PV {typedef int TypeID; virtual int type() const; virtual PV* clone() const; virtual void pack(classdesc::pack_t&) const; virtual void unpack(classdesc::pack_t&); virtual ~PV();};
struct PW: public PV {PW(); PW(int); PW(int,int); ~PW();};
struct TT {PV& operator[](int); void register_type(const PV*);};
typedef classdesc::poly<PV,TT> Po;
#include "classdesc_epilogue.h"
using namespace classdesc;
typedef classdesc::object O;
extern "C" {
  void ccv_vtable(pack_t* o) {new(o) pack_t;}
  void ccv_pack_sp(pack_t& b, shared_ptr<Node>& a) {b<<a;}
  void ccv_unpack_sp(pack_t& b, shared_ptr<Node>& a) {b>>a;}
  void ccv_pack_up(pack_t& b, std::unique_ptr<Node>& a) {b<<a;}
  void ccv_unpack_up(pack_t& b, std::unique_ptr<Node>& a) {b>>a;}
  void ccv_pack_wp(pack_t& b, weak_ptr<Node>& a) {b<<a;}
  void ccv_unpack_wp(pack_t& b, weak_ptr<Node>& a) {b>>a;}
  void ccv_pack_spb(pack_t& b, shared_ptr<PB>& a) {b<<a;}
  void ccv_unpack_spb(pack_t& b, shared_ptr<PB>& a) {b>>a;}
  void ccv_pack_upb(pack_t& b, std::unique_ptr<PB>& a) {b<<a;}
  void ccv_unpack_upb(pack_t& b, std::unique_ptr<PB>& a) {b>>a;}
  void ccv_pack_so(pack_t& b, shared_ptr<O>& a) {b<<a;}
  void ccv_unpack_so(pack_t& b, shared_ptr<O>& a) {b>>a;}
  void ccv_pack_sob(pack_t& b, shared_ptr<Ob>& a) {b<<a;}
  void ccv_unpack_sob(pack_t& b, shared_ptr<Ob>& a) {b>>a;}
  O* ccv_create(int t) {return O::create(t);}
  void ccv_register(shared_ptr<O>& o) {register_with_factory(o);}
  int ccv_obtype(Ob& o) {return o.classdesc::Object<Ob>::type();}
  O* ccv_obclone(Ob& o) {return o.classdesc::Object<Ob>::clone();}
  void ccv_obpack(Ob& o, pack_t& b) {o.classdesc::Object<Ob>::pack(b);}
  void ccv_obunpack(Ob& o, pack_t& b) {o.classdesc::Object<Ob>::unpack(b);}
  FB* ccv_fcreate(Factory<FB,int>& f, int t) {return f.create(t);}
  void ccv_freg(Factory<FB,int>& f, int t) {f.registerType<F1>(t);}
  void ccv_po_copy(Po* o, const Po& x) {new(o) Po(x);}
  void ccv_po_default(Po* o) {new(o) Po;}
  void ccv_po_value(Po* o, const PV& x) {new(o) Po(x);}
  void ccv_po_asg(Po& o, const Po& x) {o=x;}
  void ccv_po_asgv(Po& o, const PV& x) {o=x;}
  void ccv_po_dtor(Po& o) {o.~Po();}
  void ccv_po_swap(Po& o, Po& x) {std::swap(o,x);}
  void ccv_po_add0(Po& o, Po* r) {new(r) Po(o.addObject<PW>());}
  void ccv_po_add1(Po& o, Po* r, int a) {new(r) Po(o.addObject<PW,int>(a));}
  void ccv_po_add2(Po& o, Po* r, int a, int b) {new(r) Po(o.addObject<PW,int,int>(a,b));}
  bool ccv_po_bool(const Po& o) {return o;}
  void ccv_po_pack(pack_t& b, Po& o) {b<<o;}
  void ccv_po_unpack(pack_t& b, Po& o) {b>>o;}
  Poly<M1,MB>* ccv_m1clone(M1& x) {return x.classdesc::Poly<M1,MB>::clone();}
  M1* ccv_clonet(PolyBase<int>& x) {return x.cloneT<M1>();}
  void ccv_pp1pack(PP1& x, pack_t& b, const string& d) {x.PolyPack<PP1>::pack(b,d);}
  void ccv_pp1unpack(PP1& x, pack_t& b, const string& d) {x.PolyPack<PP1>::unpack(b,d);}
}
