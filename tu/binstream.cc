// instantiates classdesc::BinStream (/repo/pack_base.h, /repo/pack_stl.h) for opaque element types
#include "pack_base.h"
#include "classdesc_epilogue.h"
#include "pack_stl.h"
#include <list>
#include <deque>
#include <set>
#include <map>
struct Elem { int opaque; };
struct Key { int opaque; };
bool operator<(const Elem&, const Elem&);
bool operator==(const Elem&, const Elem&);
bool operator!=(const Elem&, const Elem&);
bool operator==(const Key&, const Key&);
bool operator!=(const Key&, const Key&);
bool operator<(const Key&, const Key&);
#include "pack_epilogue.h"
using classdesc::BinStream;
#define ENTRY(n, ...) \
  BinStream& ccv_bw_##n(BinStream& b, const __VA_ARGS__& a) {return b<<a;} \
  BinStream& ccv_br_##n(BinStream& b, __VA_ARGS__& a) {return b>>a;}
extern "C" {
  ENTRY(vector, std::vector<Elem>)
  ENTRY(list, std::list<Elem>)
  ENTRY(deque, std::deque<Elem>)
  ENTRY(set, std::set<Elem>)
  ENTRY(multiset, std::multiset<Elem>)
  ENTRY(map, std::map<Key,Elem>)
  ENTRY(multimap, std::multimap<Key,Elem>)
  ENTRY(pod, Elem)
  typedef Elem A3[3];
  ENTRY(array, A3)
  ENTRY(int, int) ENTRY(long, long) ENTRY(char, char) ENTRY(double, double)
}
void ccv_layout() {classdesc::pack_t b;}
