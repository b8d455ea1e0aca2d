// instantiates /repo/function.h (apply, bound methods, calls on a buffer, PackFunctor) for opaque functions, argument vectors and buffers
// generated by tools/gen_functional_tu.py
#include <stdexcept>
#include <string>
#include <functional>
#include "function.h"
#include "pack_base.h"
#include "classdesc_epilogue.h"
#if __cplusplus>=201703L
#define NE noexcept
#else
#define NE
#endif
#define UNROLLED (defined(USE_UNROLLED) || __cplusplus<201103L)
using namespace classdesc; using namespace classdesc::functional;
struct S {long v;};
struct Any {long v; operator int() const; operator long() const; operator double() const; operator short() const; operator unsigned char() const; operator S() const;};
struct Args {Any operator[](size_t) const;};
struct B {int dummy;};
B& operator>>(B&, int&); B& operator>>(B&, long&); B& operator>>(B&, double&); B& operator>>(B&, short&); B& operator>>(B&, unsigned char&); B& operator>>(B&, S&);
B& operator<<(B&, const int&); B& operator<<(B&, const long&); B& operator<<(B&, const double&); B& operator<<(B&, const short&); B& operator<<(B&, const unsigned char&); B& operator<<(B&, const S&);
extern "C" {
  long ext_f0(); void ext_v0();
  long ext_f1(int a0); void ext_v1(int a0);
  long ext_f2(int a0, long a1); void ext_v2(int a0, long a1);
  long ext_f3(int a0, long a1, const S& a2); void ext_v3(int a0, long a1, const S& a2);
  long ext_f4(int a0, long a1, const S& a2, double a3); void ext_v4(int a0, long a1, const S& a2, double a3);
  long ext_f5(int a0, long a1, const S& a2, double a3, short a4); void ext_v5(int a0, long a1, const S& a2, double a3, short a4);
  long ext_f6(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5); void ext_v6(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5);
  long ext_f7(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6); void ext_v7(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6);
  long ext_f8(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7); void ext_v8(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7);
  long ext_f9(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8); void ext_v9(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8);
  long ext_f10(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9); void ext_v10(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9);
  long ext_f11(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10); void ext_v11(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10);
  long ext_f12(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11); void ext_v12(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11);
  long ext_f13(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12); void ext_v13(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12);
  long ext_f14(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13); void ext_v14(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13);
  long ext_f15(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14); void ext_v15(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14);
  long ext_f16(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15); void ext_v16(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15);
  long ext_f17(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16); void ext_v17(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16);
  long ext_f18(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17); void ext_v18(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17);
  long ext_f19(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18); void ext_v19(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18);
  long ext_f20(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19); void ext_v20(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19);
}
struct O {
  int x;
  long m0(); void mv0(); long c0() const; void cv0() const; long ne0() NE; long cn0() const NE; static long st0();
  long m1(int a0); void mv1(int a0); long c1(int a0) const; void cv1(int a0) const; long ne1(int a0) NE; long cn1(int a0) const NE; static long st1(int a0);
  long m2(int a0, long a1); void mv2(int a0, long a1); long c2(int a0, long a1) const; void cv2(int a0, long a1) const; long ne2(int a0, long a1) NE; long cn2(int a0, long a1) const NE; static long st2(int a0, long a1);
  long m3(int a0, long a1, const S& a2); void mv3(int a0, long a1, const S& a2); long c3(int a0, long a1, const S& a2) const; void cv3(int a0, long a1, const S& a2) const; long ne3(int a0, long a1, const S& a2) NE; long cn3(int a0, long a1, const S& a2) const NE; static long st3(int a0, long a1, const S& a2);
  long m4(int a0, long a1, const S& a2, double a3); void mv4(int a0, long a1, const S& a2, double a3); long c4(int a0, long a1, const S& a2, double a3) const; void cv4(int a0, long a1, const S& a2, double a3) const; long ne4(int a0, long a1, const S& a2, double a3) NE; long cn4(int a0, long a1, const S& a2, double a3) const NE; static long st4(int a0, long a1, const S& a2, double a3);
  long m5(int a0, long a1, const S& a2, double a3, short a4); void mv5(int a0, long a1, const S& a2, double a3, short a4); long c5(int a0, long a1, const S& a2, double a3, short a4) const; void cv5(int a0, long a1, const S& a2, double a3, short a4) const; long ne5(int a0, long a1, const S& a2, double a3, short a4) NE; long cn5(int a0, long a1, const S& a2, double a3, short a4) const NE; static long st5(int a0, long a1, const S& a2, double a3, short a4);
  long m6(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5); void mv6(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5); long c6(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) const; void cv6(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) const; long ne6(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) NE; long cn6(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) const NE; static long st6(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5);
  long m7(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6); void mv7(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6); long c7(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) const; void cv7(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) const; long ne7(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) NE; long cn7(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) const NE; static long st7(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6);
  long m8(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7); void mv8(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7); long c8(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) const; void cv8(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) const; long ne8(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) NE; long cn8(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) const NE; static long st8(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7);
  long m9(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8); void mv9(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8); long c9(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) const; void cv9(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) const; long ne9(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) NE; long cn9(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) const NE; static long st9(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8);
  long m10(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9); void mv10(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9); long c10(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) const; void cv10(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) const; long ne10(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) NE; long cn10(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) const NE; static long st10(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9);
  long m11(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10); void mv11(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10); long c11(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) const; void cv11(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) const; long ne11(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) NE; long cn11(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) const NE; static long st11(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10);
  long m12(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11); void mv12(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11); long c12(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) const; void cv12(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) const; long ne12(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) NE; long cn12(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) const NE; static long st12(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11);
  long m13(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12); void mv13(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12); long c13(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) const; void cv13(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) const; long ne13(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) NE; long cn13(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) const NE; static long st13(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12);
  long m14(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13); void mv14(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13); long c14(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) const; void cv14(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) const; long ne14(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) NE; long cn14(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) const NE; static long st14(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13);
  long m15(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14); void mv15(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14); long c15(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) const; void cv15(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) const; long ne15(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) NE; long cn15(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) const NE; static long st15(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14);
  long m16(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15); void mv16(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15); long c16(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) const; void cv16(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) const; long ne16(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) NE; long cn16(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) const NE; static long st16(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15);
  long m17(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16); void mv17(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16); long c17(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) const; void cv17(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) const; long ne17(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) NE; long cn17(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) const NE; static long st17(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16);
  long m18(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17); void mv18(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17); long c18(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) const; void cv18(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) const; long ne18(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) NE; long cn18(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) const NE; static long st18(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17);
  long m19(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18); void mv19(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18); long c19(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) const; void cv19(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) const; long ne19(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) NE; long cn19(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) const NE; static long st19(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18);
  long m20(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19); void mv20(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19); long c20(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) const; void cv20(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) const; long ne20(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) NE; long cn20(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) const NE; static long st20(int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19);
};
struct OD: public O {int y;};
extern "C" {
  void ccv_apply0(long& r, Args& a) {apply(&r,ext_f0,a);}
  void ccv_applyv0(Args& a) {apply(static_cast<void*>(0),ext_v0,a);}
  long ccv_bind_m0(O& o) {return bindMethod(o,&O::m0)();}
  void ccv_bind_mv0(O& o) {bindMethod(o,&O::mv0)();}
  long ccv_bind_c0(O& o) {return bindMethod(o,&O::c0)();}
  long ccv_bind_c_const0(const O& o) {return bindMethod(o,&O::c0)();}
  void ccv_bind_cv_const0(const O& o) {bindMethod(o,&O::cv0)();}
  long ccv_bind_ne0(O& o) {return bindMethod(o,&O::ne0)();}
  long ccv_bind_cn_const0(const O& o) {return bindMethod(o,&O::cn0)();}
  long ccv_bind_m_const0(const O& o) {return bindMethod(o,&O::m0)();}
  void ccv_bind_mv_const0(const O& o) {bindMethod(o,&O::mv0)();}
  long ccv_derived0(OD& o) {return bindMethod(o,&OD::m0)();}
  long ccv_rebind0(O& o, O& p) {bound_method<O,long (O::*)()> b(o,&O::m0); b.rebind(p); return b();}
  void ccv_rebindv0(O& o, O& p) {bound_method<O,void (O::*)()> b(o,&O::mv0), c(b); b.rebind(p); b(); c();}
  void ccv_applybound0(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m0),a);}
  void ccv_applyboundv0(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv0),a);}
  long ccv_call0(B& b) {return callOnBuffer(b,ext_f0);}
  void ccv_callv0(B& b) {callOnBuffer(b,ext_v0);}
  long ccv_callbound0(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c0));}
  long ccv_pfcall0(PackFunctor<B>& b) {return b.call(ext_f0);}
  void ccv_apply1(long& r, Args& a) {apply(&r,ext_f1,a);}
  void ccv_applyv1(Args& a) {apply(static_cast<void*>(0),ext_v1,a);}
  long ccv_bind_m1(O& o, int a0) {return bindMethod(o,&O::m1)(a0);}
  void ccv_bind_mv1(O& o, int a0) {bindMethod(o,&O::mv1)(a0);}
  long ccv_bind_c1(O& o, int a0) {return bindMethod(o,&O::c1)(a0);}
  long ccv_bind_c_const1(const O& o, int a0) {return bindMethod(o,&O::c1)(a0);}
  void ccv_bind_cv_const1(const O& o, int a0) {bindMethod(o,&O::cv1)(a0);}
  long ccv_bind_ne1(O& o, int a0) {return bindMethod(o,&O::ne1)(a0);}
  long ccv_bind_cn_const1(const O& o, int a0) {return bindMethod(o,&O::cn1)(a0);}
  long ccv_bind_m_const1(const O& o, int a0) {return bindMethod(o,&O::m1)(a0);}
  void ccv_bind_mv_const1(const O& o, int a0) {bindMethod(o,&O::mv1)(a0);}
  long ccv_derived1(OD& o, int a0) {return bindMethod(o,&OD::m1)(a0);}
  long ccv_rebind1(O& o, O& p, int a0) {bound_method<O,long (O::*)(int)> b(o,&O::m1); b.rebind(p); return b(a0);}
  void ccv_rebindv1(O& o, O& p, int a0) {bound_method<O,void (O::*)(int)> b(o,&O::mv1), c(b); b.rebind(p); b(a0); c(a0);}
  void ccv_applybound1(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m1),a);}
  void ccv_applyboundv1(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv1),a);}
  long ccv_call1(B& b) {return callOnBuffer(b,ext_f1);}
  void ccv_callv1(B& b) {callOnBuffer(b,ext_v1);}
  long ccv_callbound1(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c1));}
  long ccv_pfcall1(PackFunctor<B>& b) {return b.call(ext_f1);}
  void ccv_apply2(long& r, Args& a) {apply(&r,ext_f2,a);}
  void ccv_applyv2(Args& a) {apply(static_cast<void*>(0),ext_v2,a);}
  long ccv_bind_m2(O& o, int a0, long a1) {return bindMethod(o,&O::m2)(a0,a1);}
  void ccv_bind_mv2(O& o, int a0, long a1) {bindMethod(o,&O::mv2)(a0,a1);}
  long ccv_bind_c2(O& o, int a0, long a1) {return bindMethod(o,&O::c2)(a0,a1);}
  long ccv_bind_c_const2(const O& o, int a0, long a1) {return bindMethod(o,&O::c2)(a0,a1);}
  void ccv_bind_cv_const2(const O& o, int a0, long a1) {bindMethod(o,&O::cv2)(a0,a1);}
  long ccv_bind_ne2(O& o, int a0, long a1) {return bindMethod(o,&O::ne2)(a0,a1);}
  long ccv_bind_cn_const2(const O& o, int a0, long a1) {return bindMethod(o,&O::cn2)(a0,a1);}
  long ccv_bind_m_const2(const O& o, int a0, long a1) {return bindMethod(o,&O::m2)(a0,a1);}
  void ccv_bind_mv_const2(const O& o, int a0, long a1) {bindMethod(o,&O::mv2)(a0,a1);}
  long ccv_derived2(OD& o, int a0, long a1) {return bindMethod(o,&OD::m2)(a0,a1);}
  long ccv_rebind2(O& o, O& p, int a0, long a1) {bound_method<O,long (O::*)(int, long)> b(o,&O::m2); b.rebind(p); return b(a0,a1);}
  void ccv_rebindv2(O& o, O& p, int a0, long a1) {bound_method<O,void (O::*)(int, long)> b(o,&O::mv2), c(b); b.rebind(p); b(a0,a1); c(a0,a1);}
  void ccv_applybound2(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m2),a);}
  void ccv_applyboundv2(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv2),a);}
  long ccv_call2(B& b) {return callOnBuffer(b,ext_f2);}
  void ccv_callv2(B& b) {callOnBuffer(b,ext_v2);}
  long ccv_callbound2(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c2));}
  long ccv_pfcall2(PackFunctor<B>& b) {return b.call(ext_f2);}
  void ccv_apply3(long& r, Args& a) {apply(&r,ext_f3,a);}
  void ccv_applyv3(Args& a) {apply(static_cast<void*>(0),ext_v3,a);}
  long ccv_bind_m3(O& o, int a0, long a1, const S& a2) {return bindMethod(o,&O::m3)(a0,a1,a2);}
  void ccv_bind_mv3(O& o, int a0, long a1, const S& a2) {bindMethod(o,&O::mv3)(a0,a1,a2);}
  long ccv_bind_c3(O& o, int a0, long a1, const S& a2) {return bindMethod(o,&O::c3)(a0,a1,a2);}
  long ccv_bind_c_const3(const O& o, int a0, long a1, const S& a2) {return bindMethod(o,&O::c3)(a0,a1,a2);}
  void ccv_bind_cv_const3(const O& o, int a0, long a1, const S& a2) {bindMethod(o,&O::cv3)(a0,a1,a2);}
  long ccv_bind_ne3(O& o, int a0, long a1, const S& a2) {return bindMethod(o,&O::ne3)(a0,a1,a2);}
  long ccv_bind_cn_const3(const O& o, int a0, long a1, const S& a2) {return bindMethod(o,&O::cn3)(a0,a1,a2);}
  long ccv_bind_m_const3(const O& o, int a0, long a1, const S& a2) {return bindMethod(o,&O::m3)(a0,a1,a2);}
  void ccv_bind_mv_const3(const O& o, int a0, long a1, const S& a2) {bindMethod(o,&O::mv3)(a0,a1,a2);}
  long ccv_derived3(OD& o, int a0, long a1, const S& a2) {return bindMethod(o,&OD::m3)(a0,a1,a2);}
  long ccv_rebind3(O& o, O& p, int a0, long a1, const S& a2) {bound_method<O,long (O::*)(int, long, const S&)> b(o,&O::m3); b.rebind(p); return b(a0,a1,a2);}
  void ccv_rebindv3(O& o, O& p, int a0, long a1, const S& a2) {bound_method<O,void (O::*)(int, long, const S&)> b(o,&O::mv3), c(b); b.rebind(p); b(a0,a1,a2); c(a0,a1,a2);}
  void ccv_applybound3(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m3),a);}
  void ccv_applyboundv3(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv3),a);}
  long ccv_call3(B& b) {return callOnBuffer(b,ext_f3);}
  void ccv_callv3(B& b) {callOnBuffer(b,ext_v3);}
  long ccv_callbound3(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c3));}
  long ccv_pfcall3(PackFunctor<B>& b) {return b.call(ext_f3);}
  void ccv_apply4(long& r, Args& a) {apply(&r,ext_f4,a);}
  void ccv_applyv4(Args& a) {apply(static_cast<void*>(0),ext_v4,a);}
  long ccv_bind_m4(O& o, int a0, long a1, const S& a2, double a3) {return bindMethod(o,&O::m4)(a0,a1,a2,a3);}
  void ccv_bind_mv4(O& o, int a0, long a1, const S& a2, double a3) {bindMethod(o,&O::mv4)(a0,a1,a2,a3);}
  long ccv_bind_c4(O& o, int a0, long a1, const S& a2, double a3) {return bindMethod(o,&O::c4)(a0,a1,a2,a3);}
  long ccv_bind_c_const4(const O& o, int a0, long a1, const S& a2, double a3) {return bindMethod(o,&O::c4)(a0,a1,a2,a3);}
  void ccv_bind_cv_const4(const O& o, int a0, long a1, const S& a2, double a3) {bindMethod(o,&O::cv4)(a0,a1,a2,a3);}
  long ccv_bind_ne4(O& o, int a0, long a1, const S& a2, double a3) {return bindMethod(o,&O::ne4)(a0,a1,a2,a3);}
  long ccv_bind_cn_const4(const O& o, int a0, long a1, const S& a2, double a3) {return bindMethod(o,&O::cn4)(a0,a1,a2,a3);}
  long ccv_bind_m_const4(const O& o, int a0, long a1, const S& a2, double a3) {return bindMethod(o,&O::m4)(a0,a1,a2,a3);}
  void ccv_bind_mv_const4(const O& o, int a0, long a1, const S& a2, double a3) {bindMethod(o,&O::mv4)(a0,a1,a2,a3);}
  long ccv_derived4(OD& o, int a0, long a1, const S& a2, double a3) {return bindMethod(o,&OD::m4)(a0,a1,a2,a3);}
  long ccv_rebind4(O& o, O& p, int a0, long a1, const S& a2, double a3) {bound_method<O,long (O::*)(int, long, const S&, double)> b(o,&O::m4); b.rebind(p); return b(a0,a1,a2,a3);}
  void ccv_rebindv4(O& o, O& p, int a0, long a1, const S& a2, double a3) {bound_method<O,void (O::*)(int, long, const S&, double)> b(o,&O::mv4), c(b); b.rebind(p); b(a0,a1,a2,a3); c(a0,a1,a2,a3);}
  void ccv_applybound4(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m4),a);}
  void ccv_applyboundv4(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv4),a);}
  long ccv_call4(B& b) {return callOnBuffer(b,ext_f4);}
  void ccv_callv4(B& b) {callOnBuffer(b,ext_v4);}
  long ccv_callbound4(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c4));}
  long ccv_pfcall4(PackFunctor<B>& b) {return b.call(ext_f4);}
  void ccv_apply5(long& r, Args& a) {apply(&r,ext_f5,a);}
  void ccv_applyv5(Args& a) {apply(static_cast<void*>(0),ext_v5,a);}
  long ccv_bind_m5(O& o, int a0, long a1, const S& a2, double a3, short a4) {return bindMethod(o,&O::m5)(a0,a1,a2,a3,a4);}
  void ccv_bind_mv5(O& o, int a0, long a1, const S& a2, double a3, short a4) {bindMethod(o,&O::mv5)(a0,a1,a2,a3,a4);}
  long ccv_bind_c5(O& o, int a0, long a1, const S& a2, double a3, short a4) {return bindMethod(o,&O::c5)(a0,a1,a2,a3,a4);}
  long ccv_bind_c_const5(const O& o, int a0, long a1, const S& a2, double a3, short a4) {return bindMethod(o,&O::c5)(a0,a1,a2,a3,a4);}
  void ccv_bind_cv_const5(const O& o, int a0, long a1, const S& a2, double a3, short a4) {bindMethod(o,&O::cv5)(a0,a1,a2,a3,a4);}
  long ccv_bind_ne5(O& o, int a0, long a1, const S& a2, double a3, short a4) {return bindMethod(o,&O::ne5)(a0,a1,a2,a3,a4);}
  long ccv_bind_cn_const5(const O& o, int a0, long a1, const S& a2, double a3, short a4) {return bindMethod(o,&O::cn5)(a0,a1,a2,a3,a4);}
  long ccv_bind_m_const5(const O& o, int a0, long a1, const S& a2, double a3, short a4) {return bindMethod(o,&O::m5)(a0,a1,a2,a3,a4);}
  void ccv_bind_mv_const5(const O& o, int a0, long a1, const S& a2, double a3, short a4) {bindMethod(o,&O::mv5)(a0,a1,a2,a3,a4);}
  long ccv_derived5(OD& o, int a0, long a1, const S& a2, double a3, short a4) {return bindMethod(o,&OD::m5)(a0,a1,a2,a3,a4);}
  long ccv_rebind5(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4) {bound_method<O,long (O::*)(int, long, const S&, double, short)> b(o,&O::m5); b.rebind(p); return b(a0,a1,a2,a3,a4);}
  void ccv_rebindv5(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4) {bound_method<O,void (O::*)(int, long, const S&, double, short)> b(o,&O::mv5), c(b); b.rebind(p); b(a0,a1,a2,a3,a4); c(a0,a1,a2,a3,a4);}
  void ccv_applybound5(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m5),a);}
  void ccv_applyboundv5(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv5),a);}
  long ccv_call5(B& b) {return callOnBuffer(b,ext_f5);}
  void ccv_callv5(B& b) {callOnBuffer(b,ext_v5);}
  long ccv_callbound5(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c5));}
  long ccv_pfcall5(PackFunctor<B>& b) {return b.call(ext_f5);}
  void ccv_apply6(long& r, Args& a) {apply(&r,ext_f6,a);}
  void ccv_applyv6(Args& a) {apply(static_cast<void*>(0),ext_v6,a);}
  long ccv_bind_m6(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {return bindMethod(o,&O::m6)(a0,a1,a2,a3,a4,a5);}
  void ccv_bind_mv6(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {bindMethod(o,&O::mv6)(a0,a1,a2,a3,a4,a5);}
  long ccv_bind_c6(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {return bindMethod(o,&O::c6)(a0,a1,a2,a3,a4,a5);}
  long ccv_bind_c_const6(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {return bindMethod(o,&O::c6)(a0,a1,a2,a3,a4,a5);}
  void ccv_bind_cv_const6(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {bindMethod(o,&O::cv6)(a0,a1,a2,a3,a4,a5);}
  long ccv_bind_ne6(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {return bindMethod(o,&O::ne6)(a0,a1,a2,a3,a4,a5);}
  long ccv_bind_cn_const6(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {return bindMethod(o,&O::cn6)(a0,a1,a2,a3,a4,a5);}
  long ccv_bind_m_const6(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {return bindMethod(o,&O::m6)(a0,a1,a2,a3,a4,a5);}
  void ccv_bind_mv_const6(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {bindMethod(o,&O::mv6)(a0,a1,a2,a3,a4,a5);}
  long ccv_derived6(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {return bindMethod(o,&OD::m6)(a0,a1,a2,a3,a4,a5);}
  long ccv_rebind6(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char)> b(o,&O::m6); b.rebind(p); return b(a0,a1,a2,a3,a4,a5);}
  void ccv_rebindv6(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char)> b(o,&O::mv6), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5); c(a0,a1,a2,a3,a4,a5);}
  void ccv_applybound6(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m6),a);}
  void ccv_applyboundv6(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv6),a);}
  long ccv_call6(B& b) {return callOnBuffer(b,ext_f6);}
  void ccv_callv6(B& b) {callOnBuffer(b,ext_v6);}
  long ccv_callbound6(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c6));}
  long ccv_pfcall6(PackFunctor<B>& b) {return b.call(ext_f6);}
  void ccv_apply7(long& r, Args& a) {apply(&r,ext_f7,a);}
  void ccv_applyv7(Args& a) {apply(static_cast<void*>(0),ext_v7,a);}
  long ccv_bind_m7(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {return bindMethod(o,&O::m7)(a0,a1,a2,a3,a4,a5,a6);}
  void ccv_bind_mv7(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {bindMethod(o,&O::mv7)(a0,a1,a2,a3,a4,a5,a6);}
  long ccv_bind_c7(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {return bindMethod(o,&O::c7)(a0,a1,a2,a3,a4,a5,a6);}
  long ccv_bind_c_const7(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {return bindMethod(o,&O::c7)(a0,a1,a2,a3,a4,a5,a6);}
  void ccv_bind_cv_const7(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {bindMethod(o,&O::cv7)(a0,a1,a2,a3,a4,a5,a6);}
  long ccv_bind_ne7(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {return bindMethod(o,&O::ne7)(a0,a1,a2,a3,a4,a5,a6);}
  long ccv_bind_cn_const7(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {return bindMethod(o,&O::cn7)(a0,a1,a2,a3,a4,a5,a6);}
  long ccv_bind_m_const7(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {return bindMethod(o,&O::m7)(a0,a1,a2,a3,a4,a5,a6);}
  void ccv_bind_mv_const7(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {bindMethod(o,&O::mv7)(a0,a1,a2,a3,a4,a5,a6);}
  long ccv_derived7(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {return bindMethod(o,&OD::m7)(a0,a1,a2,a3,a4,a5,a6);}
  long ccv_rebind7(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S)> b(o,&O::m7); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6);}
  void ccv_rebindv7(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S)> b(o,&O::mv7), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6); c(a0,a1,a2,a3,a4,a5,a6);}
  void ccv_applybound7(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m7),a);}
  void ccv_applyboundv7(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv7),a);}
  long ccv_call7(B& b) {return callOnBuffer(b,ext_f7);}
  void ccv_callv7(B& b) {callOnBuffer(b,ext_v7);}
  long ccv_callbound7(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c7));}
  long ccv_pfcall7(PackFunctor<B>& b) {return b.call(ext_f7);}
  void ccv_apply8(long& r, Args& a) {apply(&r,ext_f8,a);}
  void ccv_applyv8(Args& a) {apply(static_cast<void*>(0),ext_v8,a);}
  long ccv_bind_m8(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {return bindMethod(o,&O::m8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  void ccv_bind_mv8(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {bindMethod(o,&O::mv8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  long ccv_bind_c8(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {return bindMethod(o,&O::c8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  long ccv_bind_c_const8(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {return bindMethod(o,&O::c8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  void ccv_bind_cv_const8(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {bindMethod(o,&O::cv8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  long ccv_bind_ne8(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {return bindMethod(o,&O::ne8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  long ccv_bind_cn_const8(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {return bindMethod(o,&O::cn8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  long ccv_bind_m_const8(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {return bindMethod(o,&O::m8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  void ccv_bind_mv_const8(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {bindMethod(o,&O::mv8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  long ccv_derived8(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {return bindMethod(o,&OD::m8)(a0,a1,a2,a3,a4,a5,a6,a7);}
  long ccv_rebind8(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int)> b(o,&O::m8); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7);}
  void ccv_rebindv8(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int)> b(o,&O::mv8), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7); c(a0,a1,a2,a3,a4,a5,a6,a7);}
  void ccv_applybound8(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m8),a);}
  void ccv_applyboundv8(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv8),a);}
  long ccv_call8(B& b) {return callOnBuffer(b,ext_f8);}
  void ccv_callv8(B& b) {callOnBuffer(b,ext_v8);}
  long ccv_callbound8(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c8));}
  long ccv_pfcall8(PackFunctor<B>& b) {return b.call(ext_f8);}
  void ccv_apply9(long& r, Args& a) {apply(&r,ext_f9,a);}
  void ccv_applyv9(Args& a) {apply(static_cast<void*>(0),ext_v9,a);}
  long ccv_bind_m9(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {return bindMethod(o,&O::m9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  void ccv_bind_mv9(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {bindMethod(o,&O::mv9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  long ccv_bind_c9(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {return bindMethod(o,&O::c9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  long ccv_bind_c_const9(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {return bindMethod(o,&O::c9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  void ccv_bind_cv_const9(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {bindMethod(o,&O::cv9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  long ccv_bind_ne9(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {return bindMethod(o,&O::ne9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  long ccv_bind_cn_const9(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {return bindMethod(o,&O::cn9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  long ccv_bind_m_const9(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {return bindMethod(o,&O::m9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  void ccv_bind_mv_const9(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {bindMethod(o,&O::mv9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  long ccv_derived9(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {return bindMethod(o,&OD::m9)(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  long ccv_rebind9(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long)> b(o,&O::m9); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  void ccv_rebindv9(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long)> b(o,&O::mv9), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8); c(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  void ccv_applybound9(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m9),a);}
  void ccv_applyboundv9(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv9),a);}
  long ccv_call9(B& b) {return callOnBuffer(b,ext_f9);}
  void ccv_callv9(B& b) {callOnBuffer(b,ext_v9);}
  long ccv_callbound9(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c9));}
  long ccv_pfcall9(PackFunctor<B>& b) {return b.call(ext_f9);}
#if UNROLLED
  void ccv_apply10(long& r, Args& a) {apply(&r,ext_f10,a);}
  void ccv_applyv10(Args& a) {apply(static_cast<void*>(0),ext_v10,a);}
  long ccv_bind_m10(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {return bindMethod(o,&O::m10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  void ccv_bind_mv10(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {bindMethod(o,&O::mv10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  long ccv_bind_c10(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {return bindMethod(o,&O::c10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  long ccv_bind_c_const10(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {return bindMethod(o,&O::c10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  void ccv_bind_cv_const10(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {bindMethod(o,&O::cv10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  long ccv_bind_ne10(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {return bindMethod(o,&O::ne10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  long ccv_bind_cn_const10(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {return bindMethod(o,&O::cn10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  long ccv_bind_m_const10(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {return bindMethod(o,&O::m10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  void ccv_bind_mv_const10(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {bindMethod(o,&O::mv10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  long ccv_derived10(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {return bindMethod(o,&OD::m10)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  long ccv_rebind10(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&)> b(o,&O::m10); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  void ccv_rebindv10(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&)> b(o,&O::mv10), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9);}
  void ccv_applybound10(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m10),a);}
  void ccv_applyboundv10(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv10),a);}
  long ccv_call10(B& b) {return callOnBuffer(b,ext_f10);}
  void ccv_callv10(B& b) {callOnBuffer(b,ext_v10);}
  long ccv_callbound10(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c10));}
  long ccv_pfcall10(PackFunctor<B>& b) {return b.call(ext_f10);}
  void ccv_apply11(long& r, Args& a) {apply(&r,ext_f11,a);}
  void ccv_applyv11(Args& a) {apply(static_cast<void*>(0),ext_v11,a);}
  long ccv_bind_m11(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {return bindMethod(o,&O::m11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  void ccv_bind_mv11(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {bindMethod(o,&O::mv11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  long ccv_bind_c11(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {return bindMethod(o,&O::c11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  long ccv_bind_c_const11(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {return bindMethod(o,&O::c11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  void ccv_bind_cv_const11(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {bindMethod(o,&O::cv11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  long ccv_bind_ne11(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {return bindMethod(o,&O::ne11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  long ccv_bind_cn_const11(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {return bindMethod(o,&O::cn11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  long ccv_bind_m_const11(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {return bindMethod(o,&O::m11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  void ccv_bind_mv_const11(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {bindMethod(o,&O::mv11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  long ccv_derived11(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {return bindMethod(o,&OD::m11)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  long ccv_rebind11(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double)> b(o,&O::m11); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  void ccv_rebindv11(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double)> b(o,&O::mv11), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10);}
  void ccv_applybound11(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m11),a);}
  void ccv_applyboundv11(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv11),a);}
  long ccv_call11(B& b) {return callOnBuffer(b,ext_f11);}
  void ccv_callv11(B& b) {callOnBuffer(b,ext_v11);}
  long ccv_callbound11(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c11));}
  long ccv_pfcall11(PackFunctor<B>& b) {return b.call(ext_f11);}
  void ccv_apply12(long& r, Args& a) {apply(&r,ext_f12,a);}
  void ccv_applyv12(Args& a) {apply(static_cast<void*>(0),ext_v12,a);}
  long ccv_bind_m12(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {return bindMethod(o,&O::m12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  void ccv_bind_mv12(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {bindMethod(o,&O::mv12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  long ccv_bind_c12(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {return bindMethod(o,&O::c12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  long ccv_bind_c_const12(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {return bindMethod(o,&O::c12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  void ccv_bind_cv_const12(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {bindMethod(o,&O::cv12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  long ccv_bind_ne12(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {return bindMethod(o,&O::ne12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  long ccv_bind_cn_const12(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {return bindMethod(o,&O::cn12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  long ccv_bind_m_const12(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {return bindMethod(o,&O::m12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  void ccv_bind_mv_const12(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {bindMethod(o,&O::mv12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  long ccv_derived12(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {return bindMethod(o,&OD::m12)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  long ccv_rebind12(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short)> b(o,&O::m12); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  void ccv_rebindv12(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short)> b(o,&O::mv12), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);}
  void ccv_applybound12(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m12),a);}
  void ccv_applyboundv12(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv12),a);}
  long ccv_call12(B& b) {return callOnBuffer(b,ext_f12);}
  void ccv_callv12(B& b) {callOnBuffer(b,ext_v12);}
  long ccv_callbound12(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c12));}
  long ccv_pfcall12(PackFunctor<B>& b) {return b.call(ext_f12);}
  void ccv_apply13(long& r, Args& a) {apply(&r,ext_f13,a);}
  void ccv_applyv13(Args& a) {apply(static_cast<void*>(0),ext_v13,a);}
  long ccv_bind_m13(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {return bindMethod(o,&O::m13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  void ccv_bind_mv13(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {bindMethod(o,&O::mv13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  long ccv_bind_c13(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {return bindMethod(o,&O::c13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  long ccv_bind_c_const13(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {return bindMethod(o,&O::c13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  void ccv_bind_cv_const13(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {bindMethod(o,&O::cv13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  long ccv_bind_ne13(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {return bindMethod(o,&O::ne13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  long ccv_bind_cn_const13(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {return bindMethod(o,&O::cn13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  long ccv_bind_m_const13(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {return bindMethod(o,&O::m13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  void ccv_bind_mv_const13(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {bindMethod(o,&O::mv13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  long ccv_derived13(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {return bindMethod(o,&OD::m13)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  long ccv_rebind13(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char)> b(o,&O::m13); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  void ccv_rebindv13(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char)> b(o,&O::mv13), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12);}
  void ccv_applybound13(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m13),a);}
  void ccv_applyboundv13(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv13),a);}
  long ccv_call13(B& b) {return callOnBuffer(b,ext_f13);}
  void ccv_callv13(B& b) {callOnBuffer(b,ext_v13);}
  long ccv_callbound13(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c13));}
  long ccv_pfcall13(PackFunctor<B>& b) {return b.call(ext_f13);}
  void ccv_apply14(long& r, Args& a) {apply(&r,ext_f14,a);}
  void ccv_applyv14(Args& a) {apply(static_cast<void*>(0),ext_v14,a);}
  long ccv_bind_m14(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {return bindMethod(o,&O::m14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  void ccv_bind_mv14(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {bindMethod(o,&O::mv14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  long ccv_bind_c14(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {return bindMethod(o,&O::c14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  long ccv_bind_c_const14(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {return bindMethod(o,&O::c14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  void ccv_bind_cv_const14(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {bindMethod(o,&O::cv14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  long ccv_bind_ne14(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {return bindMethod(o,&O::ne14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  long ccv_bind_cn_const14(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {return bindMethod(o,&O::cn14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  long ccv_bind_m_const14(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {return bindMethod(o,&O::m14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  void ccv_bind_mv_const14(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {bindMethod(o,&O::mv14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  long ccv_derived14(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {return bindMethod(o,&OD::m14)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  long ccv_rebind14(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S)> b(o,&O::m14); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  void ccv_rebindv14(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S)> b(o,&O::mv14), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13);}
  void ccv_applybound14(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m14),a);}
  void ccv_applyboundv14(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv14),a);}
  long ccv_call14(B& b) {return callOnBuffer(b,ext_f14);}
  void ccv_callv14(B& b) {callOnBuffer(b,ext_v14);}
  long ccv_callbound14(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c14));}
  long ccv_pfcall14(PackFunctor<B>& b) {return b.call(ext_f14);}
  void ccv_apply15(long& r, Args& a) {apply(&r,ext_f15,a);}
  void ccv_applyv15(Args& a) {apply(static_cast<void*>(0),ext_v15,a);}
  long ccv_bind_m15(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {return bindMethod(o,&O::m15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  void ccv_bind_mv15(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {bindMethod(o,&O::mv15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  long ccv_bind_c15(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {return bindMethod(o,&O::c15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  long ccv_bind_c_const15(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {return bindMethod(o,&O::c15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  void ccv_bind_cv_const15(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {bindMethod(o,&O::cv15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  long ccv_bind_ne15(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {return bindMethod(o,&O::ne15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  long ccv_bind_cn_const15(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {return bindMethod(o,&O::cn15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  long ccv_bind_m_const15(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {return bindMethod(o,&O::m15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  void ccv_bind_mv_const15(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {bindMethod(o,&O::mv15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  long ccv_derived15(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {return bindMethod(o,&OD::m15)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  long ccv_rebind15(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int)> b(o,&O::m15); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  void ccv_rebindv15(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int)> b(o,&O::mv15), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14);}
  void ccv_applybound15(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m15),a);}
  void ccv_applyboundv15(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv15),a);}
  long ccv_call15(B& b) {return callOnBuffer(b,ext_f15);}
  void ccv_callv15(B& b) {callOnBuffer(b,ext_v15);}
  long ccv_callbound15(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c15));}
  long ccv_pfcall15(PackFunctor<B>& b) {return b.call(ext_f15);}
  void ccv_apply16(long& r, Args& a) {apply(&r,ext_f16,a);}
  void ccv_applyv16(Args& a) {apply(static_cast<void*>(0),ext_v16,a);}
  long ccv_bind_m16(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {return bindMethod(o,&O::m16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  void ccv_bind_mv16(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {bindMethod(o,&O::mv16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  long ccv_bind_c16(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {return bindMethod(o,&O::c16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  long ccv_bind_c_const16(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {return bindMethod(o,&O::c16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  void ccv_bind_cv_const16(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {bindMethod(o,&O::cv16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  long ccv_bind_ne16(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {return bindMethod(o,&O::ne16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  long ccv_bind_cn_const16(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {return bindMethod(o,&O::cn16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  long ccv_bind_m_const16(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {return bindMethod(o,&O::m16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  void ccv_bind_mv_const16(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {bindMethod(o,&O::mv16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  long ccv_derived16(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {return bindMethod(o,&OD::m16)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  long ccv_rebind16(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long)> b(o,&O::m16); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  void ccv_rebindv16(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long)> b(o,&O::mv16), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15);}
  void ccv_applybound16(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m16),a);}
  void ccv_applyboundv16(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv16),a);}
  long ccv_call16(B& b) {return callOnBuffer(b,ext_f16);}
  void ccv_callv16(B& b) {callOnBuffer(b,ext_v16);}
  long ccv_callbound16(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c16));}
  long ccv_pfcall16(PackFunctor<B>& b) {return b.call(ext_f16);}
  void ccv_apply17(long& r, Args& a) {apply(&r,ext_f17,a);}
  void ccv_applyv17(Args& a) {apply(static_cast<void*>(0),ext_v17,a);}
  long ccv_bind_m17(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {return bindMethod(o,&O::m17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  void ccv_bind_mv17(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {bindMethod(o,&O::mv17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  long ccv_bind_c17(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {return bindMethod(o,&O::c17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  long ccv_bind_c_const17(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {return bindMethod(o,&O::c17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  void ccv_bind_cv_const17(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {bindMethod(o,&O::cv17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  long ccv_bind_ne17(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {return bindMethod(o,&O::ne17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  long ccv_bind_cn_const17(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {return bindMethod(o,&O::cn17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  long ccv_bind_m_const17(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {return bindMethod(o,&O::m17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  void ccv_bind_mv_const17(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {bindMethod(o,&O::mv17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  long ccv_derived17(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {return bindMethod(o,&OD::m17)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  long ccv_rebind17(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&)> b(o,&O::m17); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  void ccv_rebindv17(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&)> b(o,&O::mv17), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16);}
  void ccv_applybound17(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m17),a);}
  void ccv_applyboundv17(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv17),a);}
  long ccv_call17(B& b) {return callOnBuffer(b,ext_f17);}
  void ccv_callv17(B& b) {callOnBuffer(b,ext_v17);}
  long ccv_callbound17(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c17));}
  long ccv_pfcall17(PackFunctor<B>& b) {return b.call(ext_f17);}
  void ccv_apply18(long& r, Args& a) {apply(&r,ext_f18,a);}
  void ccv_applyv18(Args& a) {apply(static_cast<void*>(0),ext_v18,a);}
  long ccv_bind_m18(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {return bindMethod(o,&O::m18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  void ccv_bind_mv18(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {bindMethod(o,&O::mv18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  long ccv_bind_c18(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {return bindMethod(o,&O::c18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  long ccv_bind_c_const18(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {return bindMethod(o,&O::c18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  void ccv_bind_cv_const18(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {bindMethod(o,&O::cv18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  long ccv_bind_ne18(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {return bindMethod(o,&O::ne18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  long ccv_bind_cn_const18(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {return bindMethod(o,&O::cn18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  long ccv_bind_m_const18(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {return bindMethod(o,&O::m18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  void ccv_bind_mv_const18(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {bindMethod(o,&O::mv18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  long ccv_derived18(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {return bindMethod(o,&OD::m18)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  long ccv_rebind18(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double)> b(o,&O::m18); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  void ccv_rebindv18(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double)> b(o,&O::mv18), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17);}
  void ccv_applybound18(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m18),a);}
  void ccv_applyboundv18(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv18),a);}
  long ccv_call18(B& b) {return callOnBuffer(b,ext_f18);}
  void ccv_callv18(B& b) {callOnBuffer(b,ext_v18);}
  long ccv_callbound18(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c18));}
  long ccv_pfcall18(PackFunctor<B>& b) {return b.call(ext_f18);}
  void ccv_apply19(long& r, Args& a) {apply(&r,ext_f19,a);}
  void ccv_applyv19(Args& a) {apply(static_cast<void*>(0),ext_v19,a);}
  long ccv_bind_m19(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {return bindMethod(o,&O::m19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  void ccv_bind_mv19(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {bindMethod(o,&O::mv19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  long ccv_bind_c19(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {return bindMethod(o,&O::c19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  long ccv_bind_c_const19(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {return bindMethod(o,&O::c19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  void ccv_bind_cv_const19(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {bindMethod(o,&O::cv19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  long ccv_bind_ne19(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {return bindMethod(o,&O::ne19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  long ccv_bind_cn_const19(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {return bindMethod(o,&O::cn19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  long ccv_bind_m_const19(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {return bindMethod(o,&O::m19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  void ccv_bind_mv_const19(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {bindMethod(o,&O::mv19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  long ccv_derived19(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {return bindMethod(o,&OD::m19)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  long ccv_rebind19(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short)> b(o,&O::m19); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  void ccv_rebindv19(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short)> b(o,&O::mv19), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18);}
  void ccv_applybound19(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m19),a);}
  void ccv_applyboundv19(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv19),a);}
  long ccv_call19(B& b) {return callOnBuffer(b,ext_f19);}
  void ccv_callv19(B& b) {callOnBuffer(b,ext_v19);}
  long ccv_callbound19(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c19));}
  long ccv_pfcall19(PackFunctor<B>& b) {return b.call(ext_f19);}
  void ccv_apply20(long& r, Args& a) {apply(&r,ext_f20,a);}
  void ccv_applyv20(Args& a) {apply(static_cast<void*>(0),ext_v20,a);}
  long ccv_bind_m20(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {return bindMethod(o,&O::m20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  void ccv_bind_mv20(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {bindMethod(o,&O::mv20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  long ccv_bind_c20(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {return bindMethod(o,&O::c20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  long ccv_bind_c_const20(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {return bindMethod(o,&O::c20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  void ccv_bind_cv_const20(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {bindMethod(o,&O::cv20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  long ccv_bind_ne20(O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {return bindMethod(o,&O::ne20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  long ccv_bind_cn_const20(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {return bindMethod(o,&O::cn20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  long ccv_bind_m_const20(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {return bindMethod(o,&O::m20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  void ccv_bind_mv_const20(const O& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {bindMethod(o,&O::mv20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  long ccv_derived20(OD& o, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {return bindMethod(o,&OD::m20)(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  long ccv_rebind20(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char)> b(o,&O::m20); b.rebind(p); return b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  void ccv_rebindv20(O& o, O& p, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8, const S& a9, double a10, short a11, unsigned char a12, S a13, int a14, long a15, const S& a16, double a17, short a18, unsigned char a19) {bound_method<O,void (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char)> b(o,&O::mv20), c(b); b.rebind(p); b(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19); c(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19);}
  void ccv_applybound20(long& r, O& o, Args& a) {apply(&r,bindMethod(o,&O::m20),a);}
  void ccv_applyboundv20(O& o, Args& a) {apply(static_cast<void*>(0),bindMethod(o,&O::mv20),a);}
  long ccv_call20(B& b) {return callOnBuffer(b,ext_f20);}
  void ccv_callv20(B& b) {callOnBuffer(b,ext_v20);}
  long ccv_callbound20(B& b, O& o) {return callOnBuffer(b,bindMethod(o,&O::c20));}
  long ccv_pfcall20(PackFunctor<B>& b) {return b.call(ext_f20);}
#endif
}
template <class T> struct NotS {static const bool value=!is_same<T,S>::value;};
template <class T> struct Any1 {static const bool value=true;};
extern "C" {
  bool ccv_traits0() {
    bool r=true;
    r=r && (Arity<long (*)() >::value==0);
    r=r && (Arity<long (*)() >::V==0);
    r=r && ((is_same<Return<long (*)() >::T,long>::value));
    r=r && ((is_same<Return<long (*)() >::type,long>::value));
    r=r && (is_member_function_ptr<long (*)() >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)() >::value==1);
    r=r && (functional::is_function<long (*)() >::value);
    r=r && (is_const_method<long (*)() >::value==0);
    r=r && ((AllArgs<long (*)(),NotS>::value)==1);
    r=r && ((AllArgs<long (*)(),Any1>::value));
    r=r && (Arity<long (O::*)() >::value==0);
    r=r && (Arity<long (O::*)() >::V==0);
    r=r && ((is_same<Return<long (O::*)() >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)() >::type,long>::value));
    r=r && (is_member_function_ptr<long (O::*)() >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)() >::value==0);
    r=r && (functional::is_function<long (O::*)() >::value);
    r=r && (is_const_method<long (O::*)() >::value==0);
    r=r && ((AllArgs<long (O::*)(),NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)() >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)() >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)() > >::value==0);
    r=r && ((is_same<Return<bound_method<O,long (O::*)() > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)() >::is_const)==0);
    r=r && (Arity<long (O::*)() const >::value==0);
    r=r && (Arity<long (O::*)() const >::V==0);
    r=r && ((is_same<Return<long (O::*)() const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)() const >::type,long>::value));
    r=r && (is_member_function_ptr<long (O::*)() const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)() const >::value==0);
    r=r && (functional::is_function<long (O::*)() const >::value);
    r=r && (is_const_method<long (O::*)() const >::value==1);
    r=r && ((AllArgs<long (O::*)() const,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)() const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)() const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)() const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)() const > >::value==0);
    r=r && ((is_same<Return<bound_method<O,long (O::*)() const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)() const >::is_const)==1);
    r=r && (Arity<long (O::*)() NE >::value==0);
    r=r && (Arity<long (O::*)() NE >::V==0);
    r=r && ((is_same<Return<long (O::*)() NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)() NE >::type,long>::value));
    r=r && (is_member_function_ptr<long (O::*)() NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)() NE >::value==0);
    r=r && (functional::is_function<long (O::*)() NE >::value);
    r=r && (is_const_method<long (O::*)() NE >::value==0);
    r=r && ((AllArgs<long (O::*)() NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)() NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)() NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)() NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)() NE > >::value==0);
    r=r && ((is_same<Return<bound_method<O,long (O::*)() NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)() NE >::is_const)==0);
    r=r && (Arity<long (O::*)() const NE >::value==0);
    r=r && (Arity<long (O::*)() const NE >::V==0);
    r=r && ((is_same<Return<long (O::*)() const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)() const NE >::type,long>::value));
    r=r && (is_member_function_ptr<long (O::*)() const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)() const NE >::value==0);
    r=r && (functional::is_function<long (O::*)() const NE >::value);
    r=r && (is_const_method<long (O::*)() const NE >::value==1);
    r=r && ((AllArgs<long (O::*)() const NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)() const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)() const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)() const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)() const NE > >::value==0);
    r=r && ((is_same<Return<bound_method<O,long (O::*)() const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)() const NE >::is_const)==1);
    r=r && (Arity<void (*)() NE >::value==0);
    r=r && (Arity<void (*)() NE >::V==0);
    r=r && ((is_same<Return<void (*)() NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)() NE >::type,void>::value));
    r=r && (is_member_function_ptr<void (*)() NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)() NE >::value==1);
    r=r && (functional::is_function<void (*)() NE >::value);
    r=r && (is_const_method<void (*)() NE >::value==0);
    r=r && ((AllArgs<void (*)() NE,NotS>::value)==1);
    r=r && ((AllArgs<void (*)() NE,Any1>::value));
    return r;
  }
  bool ccv_traits1() {
    bool r=true;
    r=r && (Arity<long (*)(int) >::value==1);
    r=r && (Arity<long (*)(int) >::V==1);
    r=r && ((is_same<Return<long (*)(int) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int),1>::T,int>::value));
    r=r && (is_member_function_ptr<long (*)(int) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int) >::value==1);
    r=r && (functional::is_function<long (*)(int) >::value);
    r=r && (is_const_method<long (*)(int) >::value==0);
    r=r && ((AllArgs<long (*)(int),NotS>::value)==1);
    r=r && ((AllArgs<long (*)(int),Any1>::value));
    r=r && (Arity<long (O::*)(int) >::value==1);
    r=r && (Arity<long (O::*)(int) >::V==1);
    r=r && ((is_same<Return<long (O::*)(int) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int),1>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int) >::value==0);
    r=r && (functional::is_function<long (O::*)(int) >::value);
    r=r && (is_const_method<long (O::*)(int) >::value==0);
    r=r && ((AllArgs<long (O::*)(int),NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int) > >::value==1);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int) >::is_const)==0);
    r=r && (Arity<long (O::*)(int) const >::value==1);
    r=r && (Arity<long (O::*)(int) const >::V==1);
    r=r && ((is_same<Return<long (O::*)(int) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int) const,1>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int) const >::value);
    r=r && (is_const_method<long (O::*)(int) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int) const,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int) const > >::value==1);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int) NE >::value==1);
    r=r && (Arity<long (O::*)(int) NE >::V==1);
    r=r && ((is_same<Return<long (O::*)(int) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int) NE,1>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int) NE >::value);
    r=r && (is_const_method<long (O::*)(int) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int) NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int) NE > >::value==1);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int) const NE >::value==1);
    r=r && (Arity<long (O::*)(int) const NE >::V==1);
    r=r && ((is_same<Return<long (O::*)(int) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int) const NE,1>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int) const NE >::value);
    r=r && (is_const_method<long (O::*)(int) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int) const NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int) const NE > >::value==1);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int) NE >::value==1);
    r=r && (Arity<void (*)(int) NE >::V==1);
    r=r && ((is_same<Return<void (*)(int) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int) NE,1>::T,int>::value));
    r=r && (is_member_function_ptr<void (*)(int) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int) NE >::value==1);
    r=r && (functional::is_function<void (*)(int) NE >::value);
    r=r && (is_const_method<void (*)(int) NE >::value==0);
    r=r && ((AllArgs<void (*)(int) NE,NotS>::value)==1);
    r=r && ((AllArgs<void (*)(int) NE,Any1>::value));
    return r;
  }
  bool ccv_traits2() {
    bool r=true;
    r=r && (Arity<long (*)(int, long) >::value==2);
    r=r && (Arity<long (*)(int, long) >::V==2);
    r=r && ((is_same<Return<long (*)(int, long) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long),2>::T,long>::value));
    r=r && (is_member_function_ptr<long (*)(int, long) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long) >::value==1);
    r=r && (functional::is_function<long (*)(int, long) >::value);
    r=r && (is_const_method<long (*)(int, long) >::value==0);
    r=r && ((AllArgs<long (*)(int, long),NotS>::value)==1);
    r=r && ((AllArgs<long (*)(int, long),Any1>::value));
    r=r && (Arity<long (O::*)(int, long) >::value==2);
    r=r && (Arity<long (O::*)(int, long) >::V==2);
    r=r && ((is_same<Return<long (O::*)(int, long) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long),2>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long) >::value);
    r=r && (is_const_method<long (O::*)(int, long) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long),NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long) > >::value==2);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long) const >::value==2);
    r=r && (Arity<long (O::*)(int, long) const >::V==2);
    r=r && ((is_same<Return<long (O::*)(int, long) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long) const,2>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long) const >::value);
    r=r && (is_const_method<long (O::*)(int, long) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long) const,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long) const > >::value==2);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long) NE >::value==2);
    r=r && (Arity<long (O::*)(int, long) NE >::V==2);
    r=r && ((is_same<Return<long (O::*)(int, long) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long) NE,2>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long) NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long) NE > >::value==2);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long) const NE >::value==2);
    r=r && (Arity<long (O::*)(int, long) const NE >::V==2);
    r=r && ((is_same<Return<long (O::*)(int, long) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long) const NE,2>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long) const NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long) const NE > >::value==2);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long) NE >::value==2);
    r=r && (Arity<void (*)(int, long) NE >::V==2);
    r=r && ((is_same<Return<void (*)(int, long) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long) NE,2>::T,long>::value));
    r=r && (is_member_function_ptr<void (*)(int, long) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long) NE >::value);
    r=r && (is_const_method<void (*)(int, long) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long) NE,NotS>::value)==1);
    r=r && ((AllArgs<void (*)(int, long) NE,Any1>::value));
    return r;
  }
  bool ccv_traits3() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&) >::value==3);
    r=r && (Arity<long (*)(int, long, const S&) >::V==3);
    r=r && ((is_same<Return<long (*)(int, long, const S&) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&),3>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&),NotS>::value)==1);
    r=r && ((AllArgs<long (*)(int, long, const S&),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&) >::value==3);
    r=r && (Arity<long (O::*)(int, long, const S&) >::V==3);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&),3>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&),NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&) > >::value==3);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&) const >::value==3);
    r=r && (Arity<long (O::*)(int, long, const S&) const >::V==3);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&) const,3>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&) const,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&) const > >::value==3);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&) NE >::value==3);
    r=r && (Arity<long (O::*)(int, long, const S&) NE >::V==3);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&) NE,3>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&) NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&) NE > >::value==3);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&) const NE >::value==3);
    r=r && (Arity<long (O::*)(int, long, const S&) const NE >::V==3);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&) const NE,3>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&) const NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&) const NE > >::value==3);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&) NE >::value==3);
    r=r && (Arity<void (*)(int, long, const S&) NE >::V==3);
    r=r && ((is_same<Return<void (*)(int, long, const S&) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&) NE,3>::T,const S&>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&) NE,NotS>::value)==1);
    r=r && ((AllArgs<void (*)(int, long, const S&) NE,Any1>::value));
    return r;
  }
  bool ccv_traits4() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double) >::value==4);
    r=r && (Arity<long (*)(int, long, const S&, double) >::V==4);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double),4>::T,double>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double),NotS>::value)==1);
    r=r && ((AllArgs<long (*)(int, long, const S&, double),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double) >::value==4);
    r=r && (Arity<long (O::*)(int, long, const S&, double) >::V==4);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double),4>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double),NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double) > >::value==4);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double) const >::value==4);
    r=r && (Arity<long (O::*)(int, long, const S&, double) const >::V==4);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) const,4>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double) const,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double) const > >::value==4);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double) NE >::value==4);
    r=r && (Arity<long (O::*)(int, long, const S&, double) NE >::V==4);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) NE,4>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double) NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double) NE > >::value==4);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double) const NE >::value==4);
    r=r && (Arity<long (O::*)(int, long, const S&, double) const NE >::V==4);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double) const NE,4>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double) const NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double) const NE > >::value==4);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double) NE >::value==4);
    r=r && (Arity<void (*)(int, long, const S&, double) NE >::V==4);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double) NE,4>::T,double>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double) NE,NotS>::value)==1);
    r=r && ((AllArgs<void (*)(int, long, const S&, double) NE,Any1>::value));
    return r;
  }
  bool ccv_traits5() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short) >::value==5);
    r=r && (Arity<long (*)(int, long, const S&, double, short) >::V==5);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short),5>::T,short>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short),NotS>::value)==1);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short) >::value==5);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short) >::V==5);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short),5>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short),NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short) > >::value==5);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short) const >::value==5);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short) const >::V==5);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const,5>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short) const,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short) const > >::value==5);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short) NE >::value==5);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short) NE >::V==5);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) NE,5>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short) NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short) NE > >::value==5);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short) const NE >::value==5);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short) const NE >::V==5);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short) const NE,5>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short) const NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short) const NE > >::value==5);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short) NE >::value==5);
    r=r && (Arity<void (*)(int, long, const S&, double, short) NE >::V==5);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short) NE,5>::T,short>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short) NE,NotS>::value)==1);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short) NE,Any1>::value));
    return r;
  }
  bool ccv_traits6() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char) >::value==6);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char) >::V==6);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char),6>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char),NotS>::value)==1);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char) >::value==6);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char) >::V==6);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char),6>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char),NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) > >::value==6);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char) const >::value==6);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char) const >::V==6);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const,6>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char) const,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) const > >::value==6);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::value==6);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::V==6);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) NE,6>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char) NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) NE > >::value==6);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::value==6);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::V==6);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char) const NE,6>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char) const NE,NotS>::value)==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) const NE > >::value==6);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char) NE >::value==6);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char) NE >::V==6);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char) NE,6>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char) NE,NotS>::value)==1);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char) NE,Any1>::value));
    return r;
  }
  bool ccv_traits7() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S) >::value==7);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S) >::V==7);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S),7>::T,S>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::value==7);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::V==7);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S),7>::T,S>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) > >::value==7);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::value==7);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::V==7);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const,7>::T,S>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) const > >::value==7);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::value==7);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::V==7);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE,7>::T,S>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) NE > >::value==7);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::value==7);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::V==7);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE,7>::T,S>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE > >::value==7);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S) NE >::value==7);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S) NE >::V==7);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S) NE,7>::T,S>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S) NE,Any1>::value));
    return r;
  }
  bool ccv_traits8() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int) >::value==8);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int) >::V==8);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int),8>::T,int>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::value==8);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::V==8);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),8>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) > >::value==8);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::value==8);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::V==8);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,8>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const > >::value==8);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value==8);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::V==8);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,8>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE > >::value==8);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::value==8);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::V==8);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,8>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE > >::value==8);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value==8);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE >::V==8);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,8>::T,int>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int) NE,Any1>::value));
    return r;
  }
  bool ccv_traits9() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value==9);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long) >::V==9);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),9>::T,long>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value==9);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::V==9);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),9>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) > >::value==9);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::value==9);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::V==9);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,9>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const > >::value==9);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==9);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::V==9);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,9>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE > >::value==9);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value==9);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::V==9);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,9>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE > >::value==9);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==9);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::V==9);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,9>::T,long>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long) NE,Any1>::value));
    return r;
  }
#if UNROLLED
  bool ccv_traits10() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==10);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::V==10);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),10>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==10);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::V==10);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),10>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) > >::value==10);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value==10);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::V==10);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,10>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const > >::value==10);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==10);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::V==10);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,10>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE > >::value==10);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value==10);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::V==10);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,10>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE > >::value==10);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==10);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::V==10);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,10>::T,const S&>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,Any1>::value));
    return r;
  }
  bool ccv_traits11() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==11);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::V==11);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),11>::T,double>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==11);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::V==11);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),11>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) > >::value==11);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value==11);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::V==11);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,11>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const > >::value==11);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==11);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::V==11);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,11>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE > >::value==11);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value==11);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::V==11);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,11>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE > >::value==11);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==11);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::V==11);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,11>::T,double>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,Any1>::value));
    return r;
  }
  bool ccv_traits12() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==12);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::V==12);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),12>::T,short>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==12);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::V==12);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),12>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) > >::value==12);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value==12);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::V==12);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,12>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const > >::value==12);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==12);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::V==12);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,12>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE > >::value==12);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value==12);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::V==12);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,12>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE > >::value==12);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==12);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::V==12);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,12>::T,short>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,Any1>::value));
    return r;
  }
  bool ccv_traits13() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==13);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::V==13);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),13>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==13);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::V==13);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),13>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) > >::value==13);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value==13);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::V==13);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,13>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const > >::value==13);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==13);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::V==13);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,13>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE > >::value==13);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value==13);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::V==13);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,13>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE > >::value==13);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==13);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::V==13);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,13>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,Any1>::value));
    return r;
  }
  bool ccv_traits14() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value==14);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::V==14);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),14>::T,S>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value==14);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::V==14);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),14>::T,S>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) > >::value==14);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::value==14);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::V==14);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,14>::T,S>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const > >::value==14);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value==14);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::V==14);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,14>::T,S>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE > >::value==14);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::value==14);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::V==14);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,14>::T,S>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE > >::value==14);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value==14);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::V==14);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,14>::T,S>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S) NE,Any1>::value));
    return r;
  }
  bool ccv_traits15() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value==15);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::V==15);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),15>::T,int>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value==15);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::V==15);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),15>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) > >::value==15);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::value==15);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::V==15);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,15>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const > >::value==15);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value==15);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::V==15);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,15>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE > >::value==15);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::value==15);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::V==15);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,15>::T,int>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE > >::value==15);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value==15);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::V==15);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,15>::T,int>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int) NE,Any1>::value));
    return r;
  }
  bool ccv_traits16() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value==16);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::V==16);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),16>::T,long>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value==16);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::V==16);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),16>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) > >::value==16);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::value==16);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::V==16);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,16>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const > >::value==16);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==16);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::V==16);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,16>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE > >::value==16);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value==16);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::V==16);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,16>::T,long>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE > >::value==16);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==16);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::V==16);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,16>::T,long>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long) NE,Any1>::value));
    return r;
  }
  bool ccv_traits17() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==17);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::V==17);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),17>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==17);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::V==17);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),17>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) > >::value==17);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value==17);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::V==17);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,17>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const > >::value==17);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==17);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::V==17);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,17>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE > >::value==17);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value==17);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::V==17);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,17>::T,const S&>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE > >::value==17);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==17);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::V==17);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,17>::T,const S&>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&) NE,Any1>::value));
    return r;
  }
  bool ccv_traits18() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==18);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::V==18);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),18>::T,double>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==18);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::V==18);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),18>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) > >::value==18);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value==18);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::V==18);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,18>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const > >::value==18);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==18);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::V==18);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,18>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE > >::value==18);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value==18);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::V==18);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,18>::T,double>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE > >::value==18);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==18);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::V==18);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,18>::T,double>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double) NE,Any1>::value));
    return r;
  }
  bool ccv_traits19() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==19);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::V==19);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),19>::T,short>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==19);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::V==19);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),19>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) > >::value==19);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value==19);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::V==19);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,19>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const > >::value==19);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==19);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::V==19);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,19>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE > >::value==19);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value==19);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::V==19);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,19>::T,short>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE > >::value==19);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==19);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::V==19);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,18>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,19>::T,short>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short) NE,Any1>::value));
    return r;
  }
  bool ccv_traits20() {
    bool r=true;
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==20);
    r=r && (Arity<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::V==20);
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::T,long>::value));
    r=r && ((is_same<Return<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),19>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),20>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && (is_nonmember_function_ptr<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==1);
    r=r && (functional::is_function<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value);
    r=r && (is_const_method<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),NotS>::value)==0);
    r=r && ((AllArgs<long (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),Any1>::value));
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==20);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::V==20);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),19>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),20>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char),Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) > >::value==20);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value==20);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::V==20);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,19>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,20>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const > >::value==20);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const >::is_const)==1);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==20);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::V==20);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,19>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,20>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE > >::value==20);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::is_const)==0);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value==20);
    r=r && (Arity<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::V==20);
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::T,long>::value));
    r=r && ((is_same<Return<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::type,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,18>::T,double>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,19>::T,short>::value));
    r=r && ((is_same<functional::Arg<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,20>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value==1);
    r=r && (is_nonmember_function_ptr<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value==0);
    r=r && (functional::is_function<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value);
    r=r && (is_const_method<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::value==1);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,NotS>::value)==0);
    r=r && ((AllArgs<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE,Any1>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::T,O>::value));
    r=r && ((is_same<ClassOf<long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::type,O>::value));
    r=r && (Arity<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE > >::value==20);
    r=r && ((is_same<Return<bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE > >::T,long>::value));
    r=r && ((bound_method<O,long (O::*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) const NE >::is_const)==1);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==20);
    r=r && (Arity<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::V==20);
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::T,void>::value));
    r=r && ((is_same<Return<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::type,void>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,1>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,2>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,3>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,4>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,5>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,6>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,7>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,8>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,9>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,10>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,11>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,12>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,13>::T,unsigned char>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,14>::T,S>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,15>::T,int>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,16>::T,long>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,17>::T,const S&>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,18>::T,double>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,19>::T,short>::value));
    r=r && ((is_same<functional::Arg<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,20>::T,unsigned char>::value));
    r=r && (is_member_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && (is_nonmember_function_ptr<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==1);
    r=r && (functional::is_function<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value);
    r=r && (is_const_method<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE >::value==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,NotS>::value)==0);
    r=r && ((AllArgs<void (*)(int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char, S, int, long, const S&, double, short, unsigned char) NE,Any1>::value));
    return r;
  }
#endif
#if !UNROLLED
  void ccv_pack1(PackFunctor<B>& b, int a0) {b.pack<long(int)>(a0);}
  void ccv_packw1(PackFunctor<B>& b, short a0) {b.pack<long(int)>(a0);}
  void ccv_packp1(PackFunctor<B>& b, int a0) {b.pack<long(*)(int)>(a0);}
  void ccv_packauto1(PackFunctor<B>& b, int a0) {b.pack(a0);}
  void ccv_pack2(PackFunctor<B>& b, int a0, long a1) {b.pack<long(int, long)>(a0,a1);}
  void ccv_packw2(PackFunctor<B>& b, short a0, int a1) {b.pack<long(int, long)>(a0,a1);}
  void ccv_packp2(PackFunctor<B>& b, int a0, long a1) {b.pack<long(*)(int, long)>(a0,a1);}
  void ccv_packauto2(PackFunctor<B>& b, int a0, long a1) {b.pack(a0,a1);}
  void ccv_pack3(PackFunctor<B>& b, int a0, long a1, const S& a2) {b.pack<long(int, long, const S&)>(a0,a1,a2);}
  void ccv_packw3(PackFunctor<B>& b, short a0, int a1, S a2) {b.pack<long(int, long, const S&)>(a0,a1,a2);}
  void ccv_packp3(PackFunctor<B>& b, int a0, long a1, const S& a2) {b.pack<long(*)(int, long, const S&)>(a0,a1,a2);}
  void ccv_packauto3(PackFunctor<B>& b, int a0, long a1, const S& a2) {b.pack(a0,a1,a2);}
  void ccv_pack4(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3) {b.pack<long(int, long, const S&, double)>(a0,a1,a2,a3);}
  void ccv_packw4(PackFunctor<B>& b, short a0, int a1, S a2, int a3) {b.pack<long(int, long, const S&, double)>(a0,a1,a2,a3);}
  void ccv_packp4(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3) {b.pack<long(*)(int, long, const S&, double)>(a0,a1,a2,a3);}
  void ccv_packauto4(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3) {b.pack(a0,a1,a2,a3);}
  void ccv_pack5(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4) {b.pack<long(int, long, const S&, double, short)>(a0,a1,a2,a3,a4);}
  void ccv_packw5(PackFunctor<B>& b, short a0, int a1, S a2, int a3, unsigned char a4) {b.pack<long(int, long, const S&, double, short)>(a0,a1,a2,a3,a4);}
  void ccv_packp5(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4) {b.pack<long(*)(int, long, const S&, double, short)>(a0,a1,a2,a3,a4);}
  void ccv_packauto5(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4) {b.pack(a0,a1,a2,a3,a4);}
  void ccv_pack6(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {b.pack<long(int, long, const S&, double, short, unsigned char)>(a0,a1,a2,a3,a4,a5);}
  void ccv_packw6(PackFunctor<B>& b, short a0, int a1, S a2, int a3, unsigned char a4, short a5) {b.pack<long(int, long, const S&, double, short, unsigned char)>(a0,a1,a2,a3,a4,a5);}
  void ccv_packp6(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {b.pack<long(*)(int, long, const S&, double, short, unsigned char)>(a0,a1,a2,a3,a4,a5);}
  void ccv_packauto6(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5) {b.pack(a0,a1,a2,a3,a4,a5);}
  void ccv_pack7(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {b.pack<long(int, long, const S&, double, short, unsigned char, S)>(a0,a1,a2,a3,a4,a5,a6);}
  void ccv_packw7(PackFunctor<B>& b, short a0, int a1, S a2, int a3, unsigned char a4, short a5, S a6) {b.pack<long(int, long, const S&, double, short, unsigned char, S)>(a0,a1,a2,a3,a4,a5,a6);}
  void ccv_packp7(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {b.pack<long(*)(int, long, const S&, double, short, unsigned char, S)>(a0,a1,a2,a3,a4,a5,a6);}
  void ccv_packauto7(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6) {b.pack(a0,a1,a2,a3,a4,a5,a6);}
  void ccv_pack8(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {b.pack<long(int, long, const S&, double, short, unsigned char, S, int)>(a0,a1,a2,a3,a4,a5,a6,a7);}
  void ccv_packw8(PackFunctor<B>& b, short a0, int a1, S a2, int a3, unsigned char a4, short a5, S a6, short a7) {b.pack<long(int, long, const S&, double, short, unsigned char, S, int)>(a0,a1,a2,a3,a4,a5,a6,a7);}
  void ccv_packp8(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {b.pack<long(*)(int, long, const S&, double, short, unsigned char, S, int)>(a0,a1,a2,a3,a4,a5,a6,a7);}
  void ccv_packauto8(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7) {b.pack(a0,a1,a2,a3,a4,a5,a6,a7);}
  void ccv_pack9(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {b.pack<long(int, long, const S&, double, short, unsigned char, S, int, long)>(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  void ccv_packw9(PackFunctor<B>& b, short a0, int a1, S a2, int a3, unsigned char a4, short a5, S a6, short a7, int a8) {b.pack<long(int, long, const S&, double, short, unsigned char, S, int, long)>(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  void ccv_packp9(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {b.pack<long(*)(int, long, const S&, double, short, unsigned char, S, int, long)>(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
  void ccv_packauto9(PackFunctor<B>& b, int a0, long a1, const S& a2, double a3, short a4, unsigned char a5, S a6, int a7, long a8) {b.pack(a0,a1,a2,a3,a4,a5,a6,a7,a8);}
#endif
}
