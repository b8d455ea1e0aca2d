// common part of the concrete (bounded) harnesses.  Protocol on stdout, read by check.py:
//   FAIL <key> <detail>      AT <what>      COUNT evaluations=<n> distinct=<n>      SAMPLE <text>
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <string>
#include <sstream>
#include <set>
#include <map>
namespace h {
  static unsigned long long state;
  inline unsigned long long rnd() { // splitmix64
    unsigned long long z=(state+=0x9E3779B97F4A7C15ULL);
    z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31);
  }
  inline unsigned long long rnd(unsigned long long n) {return n? rnd()%n: 0;}
  inline bool thorough() {const char* t=getenv("VERIF_TIER"); return t && std::string(t)=="thorough";}
  inline int scale(int n) {return thorough()? 20*n: n;}
  static long evals=0;
  static std::set<size_t> seen;
  static std::map<std::string,int> fails;
  static std::string at;
  static int nsamples=0;
  inline void section(const std::string& s) {at=s; printf("AT %s\n",s.c_str()); fflush(stdout);}
  inline std::string esc(const std::string& s) {
    std::string r; char b[8];
    for (size_t i=0; i<s.size() && i<(getenv("LONG")? 30000: 300); ++i)
      if (s[i]>=32 && s[i]<127 && s[i]!='\\') r+=s[i]; else {snprintf(b,8,"\\x%02x",(unsigned char)s[i]); r+=b;}
    return r;
  }
  inline void sample(const std::string& s) {if (nsamples++<6) printf("SAMPLE %s\n",esc(s).c_str());}
  // one evaluation of the property on a case described by s
  inline void eval(const std::string& s) {
    evals++;
    size_t x=1469598103934665603ULL;
    for (size_t i=0; i<s.size(); ++i) {x^=(unsigned char)s[i]; x*=1099511628211ULL;}
    if (seen.size()<2000000) seen.insert(x);
    if (evals==1 || evals==50 || evals==500) sample(at+": "+s);
  }
  inline void fail(const std::string& key, const std::string& detail) {
    if (fails[key]++<3) {printf("FAIL %s %s\n",key.c_str(),esc(detail).c_str()); fflush(stdout);}
  }
  inline bool check(bool c, const std::string& key, const std::string& detail) {if (!c) fail(key,detail); return c;}
  template <class T> std::string str(const T& x) {std::ostringstream o; o<<x; return o.str();}
  inline std::string hex(const void* p, size_t n) {
    std::string r; char b[4];
    for (size_t i=0; i<n && i<64; ++i) {snprintf(b,4,"%02x",((const unsigned char*)p)[i]); r+=b;}
    return r;
  }
  // "interesting" integers of width w bits
  inline unsigned long long interesting(int w) {
    unsigned long long m= w==64? ~0ULL: (1ULL<<w)-1;
    switch (rnd(6)) {
      case 0: return rnd(4)&m;
      case 1: return (~0ULL-rnd(4))&m;
      case 2: return ((1ULL<<(w-1))+rnd(3)-1)&m;
      case 3: return (1ULL<<rnd(w))&m;
      case 4: return rnd(300)&m;
      default: return rnd()&m;
    }
  }
  inline std::string rstr(size_t maxlen, int alphabet=256) {
    size_t n=rnd(4)==0? rnd(3): rnd(maxlen+1); std::string s;
    for (size_t i=0; i<n; ++i) s+=(char)rnd(alphabet);
    return s;
  }
  struct Main {
    Main() {const char* s=getenv("VERIF_SEED"); state=s? strtoull(s,0,10)*7919+17: 17; rnd();}
    ~Main() {printf("COUNT evaluations=%ld distinct=%ld\n",evals,(long)seen.size()); fflush(stdout);}
  };
}
#define CHECK(c,key,detail) h::check((c),key,detail)
#endif
