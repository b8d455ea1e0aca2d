#include <string>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <memory>
#include <array>
enum Plain {pa=3, pb=7, pc=-2, pd};
enum Alias {qa=1, qb=4, qc=4, qd=-9};
enum class Scoped: short {sa=-5, sb=300, sc};
struct Leaf {
  int i; double d; std::string s; bool b; char c;
  bool normalised;   // set by the hook, excluded from random values there
};
struct BaseA {unsigned char uc; signed char sc; short sh; unsigned short us;};
struct BaseB {float f; long double ld; wchar_t w; std::wstring ws;};
class Whole: public BaseA, public BaseB {
public:
  int x, y[3]; long z[2][5][2]; Leaf leaves[2][2]; Plain e, f[3]; Alias al; Scoped so;
  std::vector<int> v; std::vector<Leaf> vs; std::list<std::string> ls; std::deque<unsigned long> du; std::vector<std::vector<char> > vv; std::array<int,4> ar;
  std::map<int,std::string> m; std::multimap<std::string,Leaf> mm; std::set<int> st; std::multiset<std::string> ms; std::map<std::string,std::vector<int> > mv; std::map<char,std::map<int,int> > mmi;
  std::unordered_set<int> us_; std::unordered_map<std::string,int> um;
  std::pair<int,Leaf> p; std::pair<std::pair<char,bool>,std::string> pp; std::vector<std::pair<int,int> > vp;
  const int k; const int karr[2]; int* ptr; Leaf* lptr; static const int sk=4; static int stat;
  std::shared_ptr<Leaf> sp; std::unique_ptr<Leaf> up; std::unique_ptr<int> upi; std::vector<std::shared_ptr<int> > vsp;
  classdesc::Exclude<int> ex; std::vector<Plain> ve; std::vector<Scoped> vso;
  long long ll; unsigned long long ull; unsigned u; unsigned long ul;
  int method(int) {return 0;}
  static int smethod() {return 0;}
private:
  int priv; std::vector<int> privv; CLASSDESC_ACCESS(Whole);
public:
  Whole(): k(5), karr{7,8}, ptr(nullptr), lptr(nullptr) {}
  int getPriv() const {return priv;}
  std::vector<int>& pv() {return privv;}
  void setPriv(int x) {priv=x;}
};
