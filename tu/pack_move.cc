// move construction and assignment, swapping, opening and closing of buffers; contains no code of its own to verify
#include "pack_base.h"
#include "classdesc_epilogue.h"
#include "pack_stl.h"
#include "pack_epilogue.h"
#include <new>
#include <utility>
using namespace classdesc;
void ccv_move(pack_t* at, pack_t& x) {new(at) pack_t(std::move(x));}
void ccv_moveassign(pack_t& a, pack_t& x) {a=std::move(x);}
void ccv_swap(pack_t& a, pack_t& x) {a.pack_t::swap(x);}
void ccv_open(pack_t* at, const char* n, const char* rw) {new(at) pack_t(n,rw);}
void ccv_close(pack_t* at) {at->pack_t::~pack_t();}
void ccv_use(pack_t& a, basic_type& t)
{
  a.clear(); a.append(t); a.popoff(t); a.packraw("",1); a.unpackraw(0,0);
  a.reseti(); a.reseto(); a.seeki(0); a.seeko(0);
}
