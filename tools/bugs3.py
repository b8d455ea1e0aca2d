HR = '#include "pack_base.h"\n#include "ref.h"\n#include "classdesc_epilogue.h"\nusing namespace classdesc;\nstatic int live=0;\nstruct T {int v; T(int v=0): v(v) {live++;} T(const T& x): v(x.v) {live++;} ~T() {live--;}};\n'
B('c06-nullify-shared', 'C06', [('ref.h', 'void nullify() { refdec(); item=NULL;}', 'void nullify() { if (refCount()==1) delete item; item=NULL;}')], HR + '''int main() {
  {ref<T> a=T(1), b=a; a.nullify(); if (b.refCount()!=1) return 1;}
  return live;
}''', needs='nullify() on a ref whose payload is shared', breaks='the count keeps the nullified ref, so the payload is never released')
B('c06-default-payload', 'C06', [('ref.h', 'Payload(): count(1) {}', 'Payload(): count(0) {}'), ('ref.h', 'T* operator->() {if (!item) newitem(); return (T*)item;}', 'T* operator->() {if (!item) {newitem(); item->count++;} return (T*)item;}')], HR + '''int main() {
  {ref<T> a; (*a).v=3; if (a.refCount()!=1) return 1;}
  return live;
}''', needs='a null ref dereferenced by * rather than ->', breaks='the new payload is counted 0 times and never released')
B('c06-swap-null', 'C06', [('ref.h', 'void swap(ref& x) {Payload*tmp=x.item; x.item=item; item=tmp;}', 'void swap(ref& x) {Payload*tmp=x.item; if (item) x.item=item; else if (tmp) {tmp->count++; x.refdec(); x.item=NULL; tmp->count+=tmp->count>1;} item=tmp;}')], HR + '''int main() {
  {ref<T> a=T(1), b=a, n; n.swap(a); if (b.refCount()!=2) return 1;}
  return live;
}''', needs='a null ref swapped with one that shares its payload', breaks='the count becomes one too high, so the payload is never released')
