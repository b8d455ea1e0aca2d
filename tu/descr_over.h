// classes for classdesc -overload
#include <string>
struct Ov
{
  int a;
  void f();
  void f(int);
  int f(int, double y=2) const;
  int* g(const std::string& s="x", int n={3});
  static int s(int);
  Ov();
  Ov(int, const Ov*);
  ~Ov();
  Ov& operator=(const Ov&);
  virtual long v(int);
  void gone(int)=delete;
  double b[2];
};
class OvPrivate
{
  void hidden(); void hidden(int);
  int h;
public:
  void shown(); void shown(int) const;
  int s;
};
template <class T> struct OvT
{
  T a;
  void one(const OvT&);
  void two(OvT&, OvT*);
  int three(OvT&, int, OvT&, T, const OvT&) const;
  void three();
  int b;
};
