// instantiates the in-memory buffer core of /repo/pack_base.h; contains no code of its own to verify
#include "pack_base.h"
#include "classdesc_epilogue.h"
#include "pack_stl.h"
#include "pack_epilogue.h"
void ccv_use(classdesc::pack_t& a, const classdesc::pack_t& b, classdesc::basic_type& t)
{
  classdesc::pack_t c; classdesc::pack_t d(10);
  a.clear(); a.resize(3); a.append(t); a.popoff(t); a.packraw("",1); a.unpackraw(0,0); a.swap(c);
  a.reseti(); a.reseto(); a.seeki(0); a.seeko(0); a.realloc(3);
  bool x= a<b || a>b || a==b || a!=b || a.cmp(b) || bool(a);
}
