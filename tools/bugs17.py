P='#include "pack_base.h"\n#include "classdesc_epilogue.h"\n#include "pack_stl.h"\n#include "pack_epilogue.h"\n#include <string.h>\nusing namespace classdesc;\n'
B('c01-iter-end','C01',[('pack_stl.h','      typename T::size_type i=a.container? \n        std::distance(a.container->begin(),a.iter()): 0;','      typename T::size_type i=a.container && a.iter()!=a.container->end()? \n        std::distance(a.container->begin(),a.iter()): 0;')],
P+'''int main() {std::vector<int> v(5), w(5); Iterator<std::vector<int> > a(v), b(w); a=v.end(); b=w.begin(); pack_t p; p<<a; p>>b; return std::vector<int>::iterator(b)!=w.end();}''',
 needs='a packed Iterator that is at the end of its container',breaks='it is read back at the beginning')
B('c05-alloc-shared','C05',[('ref.h','{x=T();}','{if (!x) x=T(); else *x=T();}')],
'''#include "classdesc.h"
#include "pack_base.h"
#include "pack_graph.h"
#include "ref.h"
using namespace classdesc;
struct N {int id; ref<N> a; N(): id(0) {}};
namespace classdesc_access {
  template <> struct access_pack<N> {template <class U> void operator()(pack_t& t,const classdesc::string& d,U& x) {::pack(t,d,x.id); ::pack(t,d,x.a);}};
  template <> struct access_unpack<N> {template <class U> void operator()(pack_t& t,const classdesc::string& d,U& x) {::unpack(t,d,x.id); ::unpack(t,d,x.a);}};
}
#include "classdesc_epilogue.h"
#include "pack_stl.h"
#include "pack_epilogue.h"
int main() {ref<N> src, other; src->id=1; other->id=5; ref<N> dst(other); pack_t b; b<<src; b>>dst; return dst->id!=1 || other->id!=5;}''',
 needs='unpacking into a ref that shares its object with another ref',breaks='the object of the other ref is overwritten')
B('c16-ptr','C16',[('random_init_epilogue.h','    if (a.get())\n      random_init(r,d,*a);','    if (!a.get())\n      random_init(r,d,*a);')],
'''#include "random_init_base.h"
struct ND {int x; explicit ND(int v): x(v) {}};
namespace classdesc_access {template <> struct access_random_init<ND> {void operator()(classdesc::random_init_t& r,const classdesc::string& d,ND& a) {a.x=int(r.rand()*0)+9;}};}
#include "classdesc_epilogue.h"
#include "random_init_epilogue.h"
using namespace classdesc;
int main() {random_init_t r; shared_ptr<ND> p(new ND(3)); random_init(r,"",p); return p->x!=9;}''',
 std='c++11',needs='a smart pointer holding an object of a class with no default constructor',breaks='the object is left uninitialised (and a null pointer is followed)')
