// C07 fixtures: the older hierarchies of object.h and poly.h
#ifndef POLY0_H
#define POLY0_H
#include "poly.h"
#include <vector>
#include <string>
namespace po
{
  using classdesc::string;
  struct A: public classdesc::Object<A> {int x; string s; A(): x(0) {}};
  struct B: public classdesc::Object<B,A> {double y; std::vector<int> v; B(): y(0) {}};
  struct C: public classdesc::Object<C> {string z;};
  struct D: public classdesc::Object<D,B> {char c; D(): c(0) {}};
  struct E: public classdesc::Object<E,A> {int w;};
}
#endif
