// instantiates /repo/multiArray.h; entry points: one use of the public API each
#include <string.h>
#include <iterator>
#include "classdesc.h"
#include "multiArray.h"
using classdesc::MultiArray;
typedef size_t S;
extern "C" {
  // address of element [i2][i1][i0], for both constructors, const and not
  int* ccv_ix1(int* p, S d0, S i) {MultiArray<int,1> a(p,d0); return &a[i];}
  int* ccv_ix2(int* p, S d0, S d1, S i, S j) {MultiArray<int,2> a(p,d0,d1); return &a[j][i];}
  int* ccv_ix3(int* p, S d0, S d1, S d2, S i, S j, S k) {MultiArray<int,3> a(p,d0,d1,d2); return &a[k][j][i];}
  int* ccv_ix4(int* p, S d0, S d1, S d2, S d3, S i, S j, S k, S l) {MultiArray<int,4> a(p,d0,d1,d2,d3); return &a[l][k][j][i];}
  int* ccv_vx1(int* p, const S* d, S i) {MultiArray<int,1> a(p,d); return &a[i];}
  int* ccv_vx2(int* p, const S* d, S i, S j) {MultiArray<int,2> a(p,d); return &a[j][i];}
  int* ccv_vx3(int* p, const S* d, S i, S j, S k) {MultiArray<int,3> a(p,d); return &a[k][j][i];}
  int* ccv_vx4(int* p, const S* d, S i, S j, S k, S l) {MultiArray<int,4> a(p,d); return &a[l][k][j][i];}
  const int* ccv_cx2(int* p, S d0, S d1, S i, S j) {const MultiArray<int,2> a(p,d0,d1); return &a[j][i];}
  const int* ccv_cx3(int* p, S d0, S d1, S d2, S i, S j, S k) {const MultiArray<int,3> a(p,d0,d1,d2); return &a[k][j][i];}
  // reading and writing through it
  int ccv_get3(int* p, S d0, S d1, S d2, S i, S j, S k) {const MultiArray<int,3> a(p,d0,d1,d2); return a[k][j][i];}
  void ccv_set3(int* p, S d0, S d1, S d2, S i, S j, S k, int v) {MultiArray<int,3> a(p,d0,d1,d2); a[k][j][i]=v;}
  // sizes: of the array and of its slices
  S ccv_size1(int* p, S d0) {MultiArray<int,1> a(p,d0); return a.size();}
  S ccv_size3(int* p, S d0, S d1, S d2) {MultiArray<int,3> a(p,d0,d1,d2); return a.size();}
  S ccv_size32(int* p, S d0, S d1, S d2, S k) {MultiArray<int,3> a(p,d0,d1,d2); return a[k].size();}
  S ccv_size31(int* p, S d0, S d1, S d2, S k, S j) {MultiArray<int,3> a(p,d0,d1,d2); return a[k][j].size();}
  // iterators
  typedef MultiArray<int,3> A3; typedef A3::iterator I3;
  int* ccv_begin3(int* p, S d0, S d1, S d2, S i, S j) {A3 a(p,d0,d1,d2); I3 it=a.begin(); return &(*it)[j][i];}
  int* ccv_end3(int* p, S d0, S d1, S d2, S i, S j) {A3 a(p,d0,d1,d2); I3 it=a.end(); return &(*it)[j][i];}
  int* ccv_cbegin3(int* p, S d0, S d1, S d2, S i, S j) {const A3 a(p,d0,d1,d2); A3::const_iterator it=a.begin(); return const_cast<int*>(&(*it)[j][i]);}
  int* ccv_plus3(int* p, S d0, S d1, S d2, S i, S j, S k) {A3 a(p,d0,d1,d2); I3 it=a.begin(); it+=k; return &(*it)[j][i];}
  int* ccv_inc3(int* p, S d0, S d1, S d2, S i, S j, S k) {A3 a(p,d0,d1,d2); I3 it=a.begin(); it+=k; ++it; return &(*it)[j][i];}
  int* ccv_dec3(int* p, S d0, S d1, S d2, S i, S j, S k) {A3 a(p,d0,d1,d2); I3 it=a.begin(); it+=k; --it; return &(*it)[j][i];}
  int* ccv_postinc3(int* p, S d0, S d1, S d2, S i, S j, S k) {A3 a(p,d0,d1,d2); I3 it=a.begin(); it+=k; it++; return &(*it)[j][i];}
  int* ccv_postdec3(int* p, S d0, S d1, S d2, S i, S j, S k) {A3 a(p,d0,d1,d2); I3 it=a.begin(); it+=k; it--; return &(*it)[j][i];}
  int* ccv_oldinc3(int* p, S d0, S d1, S d2, S i, S j, S k) {A3 a(p,d0,d1,d2); I3 it=a.begin(); it+=k; I3 o=it++; return &(*o)[j][i];}
  int* ccv_olddec3(int* p, S d0, S d1, S d2, S i, S j, S k) {A3 a(p,d0,d1,d2); I3 it=a.begin(); it+=k; I3 o=it--; return &(*o)[j][i];}
  bool ccv_eq3(int* p, S d0, S d1, S d2, S k, S l) {A3 a(p,d0,d1,d2); I3 x=a.begin(), y=a.begin(); x+=k; y+=l; return x==y;}
  bool ccv_ne3(int* p, S d0, S d1, S d2, S k) {A3 a(p,d0,d1,d2); I3 x=a.begin(); x+=k; return x!=a.end();}
  bool ccv_begend1(int* p, S d0) {MultiArray<int,1> a(p,d0); return a.begin()==p && a.end()==p+d0;}
}
