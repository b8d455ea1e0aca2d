// descriptors generated by /repo's classdesc for descr_corpus.h, with opaque actions
// CD: corpus0.cd descr_corpus.h -nodef probe
// CD: corpus1.cd descr_corpus.h -nodef -respect_private probe
// CD: corpus2.cd descr_corpus.h -nodef -onbase probe
// CD: corpus3.cd descr_corpus.h -nodef -use_mbr_pointers probe
// CD: corpus4.cd descr_over.h -nodef -overload probe
// CXXFLAGS: -fno-access-control
#include "probe_base.h"
#if OPT==4
#include "descr_over.h"
#include "corpus4.cd"
#include "classdesc_epilogue.h"
ENTRY(Ov,Ov) ENTRY(OvPrivate,OvPrivate) ENTRY(OvT,OvT<int>)
#else
#include "descr_corpus.h"
#if OPT==0
#include "corpus0.cd"
#elif OPT==1
#include "corpus1.cd"
#elif OPT==2
#include "corpus2.cd"
#else
#include "corpus3.cd"
#endif
#include "classdesc_epilogue.h"
#define E(n) ENTRY(n,n)
E(Leaf) E(Plain) E(Lists) E(Arrays) E(Templates) E(Initialised) E(Qualified) E(Pointers) E(References) E(Statics) E(StaticsAfterConst) E(Methods) E(Private)
E(Base1) E(Base2) E(Base3) E(Derived1) E(Derived2) E(Derived3) E(Derived4) E(Derived5) E(Derived6) E(Derived7) E(Empty) E(OnlyBase)
E(Outer) E(TypedefAnon) E(TaggedT) E(Unions) E(Commented) E(Keywords) E(TypeMembers) E(Modern) E(Befriending) E(Derived8) E(Derived9) E(MultiMeth)
ENTRY(TBase,TBase<int>) ENTRY(TBase2,TBase2<int,std::vector<int> >) ENTRY(Temp,Temp<double>) ENTRY(TempC,Temp<char>) ENTRY(TempP,Temp<int*>)
ENTRY(TempArr,TempArr<Leaf>) ENTRY(TempArr5,TempArr<char,5>) ENTRY(TempDerived,TempDerived<int>)
ENTRY(Inner,Outer::Inner) ENTRY(Deep,Outer::Inner::Deep) ENTRY(Inner2,Outer::Inner2) ENTRY(Anon,Outer::Anon)
ENTRY(A,ns1::A) ENTRY(B,ns1::ns2::B) ENTRY(C,ns1::ns2::B::C) ENTRY(D,ns1::ns2::D<double>) ENTRY(A2,ns1::A2) ENTRY(A3,ns1::A3)
#endif
