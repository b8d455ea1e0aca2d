// CXXFLAGS: -DXDR_PACK
// the functions of xdr_pack.cc itself
#include "xdr_pack.cc"
#define TYPES(F) F(bool,bool) F(char,char) F(signed char,schar) F(unsigned char,uchar) F(short,short) F(unsigned short,ushort) F(int,int) F(unsigned,uint) F(long,long) F(unsigned long,ulong) F(long long,llong) F(unsigned long long,ullong) F(wchar_t,wchar) F(float,float) F(double,double) F(long double,ldouble)
#define DECL(T,N) \
  void ccv_append_##N(classdesc::xdr_pack& p, const T& v) {classdesc::Basic_Type<T> b(v); p.xdr_pack::append(b);} \
  void ccv_popoff_##N(classdesc::xdr_pack& p, T& v) {classdesc::Basic_Type<T> b(v); p.xdr_pack::popoff(b);}
extern "C" {
  TYPES(DECL)
  void ccv_packraw(classdesc::xdr_pack& p, const char* x, size_t n) {p.xdr_pack::packraw(x,n);}
  void ccv_unpackraw(classdesc::xdr_pack& p, char* x, size_t n) {p.xdr_pack::unpackraw(x,n);}
  void ccv_reseti(classdesc::xdr_pack& p) {p.reseti();}
  void ccv_reseto(classdesc::xdr_pack& p) {p.reseto();}
  void ccv_seeki(classdesc::xdr_pack& p, long n) {p.seeki(n);}
  void ccv_seeko(classdesc::xdr_pack& p, long n) {p.seeko(n);}
  void ccv_swap(classdesc::xdr_pack& p, classdesc::xdr_pack& q) {p.xdr_pack::swap(q);}
  void ccv_dtor(classdesc::xdr_pack& p) {p.xdr_pack::~xdr_pack();}
}
