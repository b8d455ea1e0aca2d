// instantiates /repo/ref.h for an opaque class (its constructors and destructor are contracts) and for a list node
#include <new>
#include "pack_base.h"
#include "ref.h"
struct T {int v; T(); T(const T&); ~T();};
inline bool operator==(const T& x, const T& y) {return x.v==y.v;}
typedef classdesc::ref<T> R;
struct N {int v; classdesc::ref<N> next; N(): v(0) {}};
typedef classdesc::ref<N> L;
extern classdesc::pack_t ccv_buffer;
extern "C" {
  void ccv_default(R* o) {new(o) R;}
  void ccv_copy(R* o, const R& x) {new(o) R(x);}
  void ccv_value(R* o, const T& x) {new(o) R(x);}
  void ccv_dtor(R& a) {a.~R();}
  void ccv_assign(R& a, const R& b) {a=b;}
  void ccv_assignv(R& a, const T& x) {a=x;}
  // what unpacking a graph does to a ref
  void ccv_alloc(R& a) {classdesc::Alloc<R>()(ccv_buffer,a);}
  void ccv_nullify(R& a) {a.nullify();}
  T* ccv_star(R& a) {return &*a;}
  T* ccv_arrow(R& a) {return a.operator->();}
  const T* ccv_cstar(const R& a) {return &*a;}
  const T* ccv_carrow(const R& a) {return a.operator->();}
  void ccv_swap(R& a, R& b) {a.swap(b);}
  void ccv_stdswap(R& a, R& b) {std::swap(a,b);}
  int ccv_refCount(const R& a) {return a.refCount();}
  bool ccv_nullref(const R& a) {return a.nullref();}
  bool ccv_bool(const R& a) {return a;}
  bool ccv_eq(const R& a, const R& b) {return a==b;}
  bool ccv_ne(const R& a, const R& b) {return a!=b;}
  bool ccv_eqp(const R& a, const T* b) {return a==b;}
  bool ccv_eqv(const R& a, const T& b) {return a==b;}
  bool ccv_nev(const R& a, const T& b) {return a!=b;}
  // the value or ref assigned from is owned by the payload that is released
  void ccv_selfvalue(R& a) {a=*a;}
  void ccv_advance(L& a) {a=a->next;}
  void ccv_drop(L& a) {a->next=a->next->next;}
  void ccv_nodedtor(L& a) {a.~L();}
  void ccv_nodevalue(L& a) {a=*a->next;}
}
