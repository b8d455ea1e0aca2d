#ifndef FIX17_H
#define FIX17_H
#include <string>
#include <vector>
#include <array>
#include <tuple>
#include <map>
#include <unordered_map>
#include <unordered_set>
namespace fix17
{
  enum class Shape {circle, square=7, tri=-2};
  struct Pt {int x=0; double y=0; bool operator==(const Pt& o) const {return x==o.x && y==o.y;}};
  class All {
    std::array<int,3> ai{{0,0,0}};
    CLASSDESC_ACCESS(All);
  public:
    std::array<std::string,2> as;
    std::array<Pt,4> ap;
    std::tuple<int,std::string,double> tp{0,"",0};
    std::tuple<Pt> t1;
    Shape sh=Shape::circle;
    std::vector<std::array<short,2>> va;
    std::map<std::string,std::tuple<int,Pt>> mt;
    long tail=0;
    void set(int a, int b, int c) {ai={{a,b,c}};}
    bool operator==(const All& o) const {return ai==o.ai && as==o.as && ap==o.ap && tp==o.tp && t1==o.t1 && sh==o.sh && va==o.va && mt==o.mt && tail==o.tail;}
  };
  struct Child: All {int extra=0; bool operator==(const Child& o) const {return All::operator==(o) && extra==o.extra;}};
}
#endif
